import json, os
import build
class Context:
    def __init__(self):
        self.facts_path = build.facts()
        with open(self.facts_path) as f:
            self.raw = json.load(f)
    def cache(self):
        return build.CACHE
