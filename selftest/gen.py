import re
s = open('src/lib.rs').read()
fs = re.findall(r'^pub fn (\w+)\(', s, re.M)
m = ['use selftest::*;', 'use std::io::BufRead;', 'fn main() { for l in std::io::stdin().lock().lines() { let l = l.unwrap(); let p: Vec<Vec<i32>> = l.split(\';\').map(|x| x.split_whitespace().map(|y| y.parse().unwrap()).collect()).collect(); let n = p[2][0] as usize;']
for f in fs:
    m.append('print!("{:?};", %s(&p[0], &p[1], n));' % f)
m.append('println!(); } }')
open('src/main.rs', 'w').write('\n'.join(m) + '\n')
