// MIR fact extractor. Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For the crate named in VFACTS_CRATE it writes the optimised-at-level-0, drop-elaborated MIR of
// every function (and every instance reachable from them), with resolved callees, to VFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<Instance<'tcx>, usize>,
    work: Vec<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    bodies: Vec<(usize, String)>,
    proms: HashMap<(DefId, String, usize), usize>,
    nfn: usize,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn new_id(&mut self) -> usize {
        self.nfn += 1;
        self.nfn - 1
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let name = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Str | ty::Never => format!("\"k\":\"{}\"", name.replace('!', "never")),
            ty::Int(_) | ty::Uint(_) => format!("\"k\":\"int\""),
            ty::Float(_) => format!("\"k\":\"float\""),
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"t\":{},\"m\":{}", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", self.ty(*t), m.is_mut()),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(*t), n.map(|x| x as i64).unwrap_or(-1))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"idx\":{}", p.index),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let env = TypingEnv::fully_monomorphized();
                let c = self.callee(*d, args, env);
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let kind = if self.tcx.is_closure_like(*d) { format!("{:?}", args.as_closure().kind()) } else { "?".into() };
                let env = TypingEnv::fully_monomorphized();
                let id = self.inst(inst, env);
                format!("\"k\":\"closure\",\"fn\":{},\"ck\":\"{}\"", id, kind)
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                let local = def.did().is_local();
                let mut vs: Vec<String> = vec![];
                let kr = self.tcx.crate_name(def.did().krate);
                let krs = kr.as_str();
                let expand = local || def.is_enum() && (krs == "core" || krs == "std" || krs == "alloc" || krs == "nom") || krs == "nom" || krs == "vmodel";
                if expand {
                    let discrs: Vec<u128> = if def.is_enum() { def.discriminants(self.tcx).map(|(_, d)| d.val).collect() } else { vec![0] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                let ft = self
                                    .tcx
                                    .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ft))
                                    .unwrap_or(ft);
                                let vis = match f.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(d) => if d.is_crate_root() {"crate".to_string()} else {self.path(d.to_def_id())} };
                                format!("[{},{},{}]", esc(f.name.as_str()), self.ty(ft), esc(&vis))
                            })
                            .collect();
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(v.name.as_str()),
                            discrs.get(vi.as_usize()).copied().unwrap_or(0) as i128,
                            arr(fs)
                        ));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"path\":{},\"args\":{},\"enum\":{},\"local\":{},\"vs\":{}",
                    esc(&p),
                    arr(targs),
                    def.is_enum(),
                    local,
                    arr(vs)
                )
            }
            _ => format!("\"k\":\"other\""),
        };
        self.types[i] = format!("{{{},\"s\":{}}}", body, esc(&name));
        i
    }
    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        if let Some(&i) = self.insts.get(&inst) {
            return i;
        }
        let i = self.new_id();
        self.insts.insert(inst, i);
        self.work.push((inst, env, i));
        i
    }
    fn has_body(&self, d: DefId) -> bool {
        d.is_local() && self.tcx.is_mir_available(d) && !matches!(self.tcx.def_kind(d), DefKind::Ctor(..))
    }
    // JSON description of a callee
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let decl = self.path(d);
        let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
        let mut extra = String::new();
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let variant_did = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(variant_did) {
                DefKind::Variant => {
                    let a = tcx.parent(variant_did);
                    (a, tcx.adt_def(a).variant_index_with_id(variant_did).as_usize())
                }
                _ => (variant_did, 0),
            };
            let name = self.path(adt);
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let out = self.ty(sig.output());
            let _ = write!(extra, ",\"ctor\":[{},{},{}]", esc(&name), vi, out);
        } else if let Ok(Some(r)) = Instance::try_resolve(tcx, env, d, args) {
            match r.def {
                InstanceKind::Item(rd) if self.has_body(rd) => {
                    let id = self.inst(r, env);
                    let _ = write!(extra, ",\"fn\":{}", id);
                }
                InstanceKind::Item(rd) => {
                    let rp = self.path(rd);
                    if rp != decl {
                        let _ = write!(extra, ",\"res\":{}", esc(&rp));
                    }
                }
                _ => {
                    let _ = write!(extra, ",\"shim\":{}", esc(&format!("{:?}", r.def)));
                }
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(extra, ",\"trait\":{}", esc(&self.path(tr)));
        }
        format!("{{\"decl\":{},\"targs\":{}{}}}", esc(&decl), arr(targs), extra)
    }
    fn span(&self, s: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line)
    }
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut v = vec![];
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cidx\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"down\",{}]", v.as_usize()),
                _ => "[\"cast\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("[{},{},{}]", p.local.as_usize(), arr(v), t)
    }
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let end = len.map(|l| off + l).unwrap_or(a.len());
                if end > a.len() || !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }
    fn size_of(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        self.tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes() as usize)
    }
    // decode memory of type t at alloc+off
    fn mem(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let n = self.size_of(t, env)?;
                let b = self.alloc_bytes(id, off, Some(n))?;
                let mut v: u128 = 0;
                for (i, x) in b.iter().enumerate() {
                    v |= (*x as u128) << (8 * i);
                }
                Some(self.int_json(v, t))
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(self.tcx)? as usize;
                if n > 65536 {
                    return None;
                }
                let es = self.size_of(*et, env)?;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(id, off + i * es, *et, env)?);
                }
                Some(format!("{{\"c\":\"array\",\"v\":{}}}", arr(v)))
            }
            ty::Tuple(ts) if ts.is_empty() => Some("{\"c\":\"unit\"}".into()),
            ty::Ref(_, inner, _) => {
                let m = match self.tcx.try_get_global_alloc(id)? {
                    GlobalAlloc::Memory(m) => m,
                    _ => return None,
                };
                let a = m.inner();
                let prov = a.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off as u64)).copied()?;
                let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
                let poff = u64::from_le_bytes(raw.try_into().ok()?) as usize;
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(off + 8..off + 16);
                        let len = u64::from_le_bytes(raw.try_into().ok()?) as usize;
                        self.fat(prov.alloc_id(), poff, len, *inner, env)
                    }
                    _ => {
                        let v = self.mem(prov.alloc_id(), poff, *inner, env)?;
                        Some(format!("{{\"c\":\"refto\",\"v\":{}}}", v))
                    }
                }
            }
            _ => None,
        }
    }
    fn fat(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: usize, inner: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        match inner.kind() {
            ty::Str => {
                let b = self.alloc_bytes(id, off, Some(len))?;
                Some(format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&b))))
            }
            ty::Slice(et) => {
                let es = self.size_of(*et, env)?;
                let mut v = vec![];
                for i in 0..len {
                    v.push(self.mem(id, off + i * es, *et, env)?);
                }
                Some(format!("{{\"c\":\"refto\",\"v\":{{\"c\":\"array\",\"v\":{}}}}}", arr(v)))
            }
            _ => None,
        }
    }
    fn int_json(&mut self, v: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"c\":\"bool\",\"v\":{}}}", v != 0),
            ty::Char => format!("{{\"c\":\"char\",\"v\":{}}}", v),
            ty::Int(it) => {
                let bits = it.bit_width().unwrap_or(64);
                let sv = ((v << (128 - bits)) as i128) >> (128 - bits);
                format!("{{\"c\":\"int\",\"v\":{}}}", sv)
            }
            ty::Uint(_) => format!("{{\"c\":\"int\",\"v\":{}}}", v),
            ty::Float(ft) => format!("{{\"c\":\"float\",\"w\":{},\"bits\":{}}}", ft.bit_width(), v),
            _ => format!("{{\"c\":\"int\",\"v\":{}}}", v),
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let ce = self.callee(*d, args.skip_binder(), env);
            return format!("{{\"c\":\"fn\",\"callee\":{},\"t\":{}}}", ce, tid);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let key = (u.def, format!("{:?}", u.args), p.as_usize());
                let id = if let Some(&i) = self.proms.get(&key) {
                    i
                } else {
                    let i = self.new_id();
                    self.proms.insert(key, i);
                    if u.def.is_local() {
                        let b = tcx.promoted_mir(u.def)[p].clone();
                        let inst = Instance::new_raw(u.def, u.args);
                        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b));
                        let nm = format!("{}::promoted{}", self.path(u.def), p.as_usize());
                        self.body(&b, &nm, "promoted", i, env, u.def, "");
                    }
                    i
                };
                return format!("{{\"c\":\"promoted\",\"fn\":{},\"t\":{}}}", id, tid);
            }
        }
        let cid = if let mir::Const::Unevaluated(u, _) = c { Some((u.def, u.args)) } else { None };
        let named = match cid { Some((d, _)) => format!(",\"name\":{}", esc(&self.path(d))), None => String::new() };
        if let Ok(v) = c.eval(tcx, env, span) {
            let j = match v {
                ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => None,
                    _ => Some(self.int_json(i.to_bits(i.size()), t)),
                },
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    if let ty::Ref(_, inner, _) = t.kind() {
                        self.mem(prov.alloc_id(), off.bytes() as usize, *inner, env).map(|v| format!("{{\"c\":\"refto\",\"v\":{}}}", v))
                    } else {
                        None
                    }
                }
                ConstValue::ZeroSized => Some("{\"c\":\"zst\"}".to_string()),
                ConstValue::Slice { alloc_id, meta } => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        self.fat(alloc_id, 0, meta as usize, *inner, env)
                    } else {
                        None
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes() as usize, t, env),
            };
            if let Some(j) = j {
                let mut j = j;
                j.pop();
                return format!("{},\"t\":{}{}}}", j, tid, named);
            }
        }
        if let Some((d, args)) = cid {
            if d.is_local() && tcx.is_mir_available(d) || d.is_local() && matches!(tcx.def_kind(d), DefKind::Const{..} | DefKind::AssocConst{..}) {
                if let Ok(Some(r)) = Instance::try_resolve(tcx, env, d, args) {
                    let key = (r.def_id(), format!("{:?}", r.args), usize::MAX);
                    let id = if let Some(&i) = self.proms.get(&key) {
                        i
                    } else {
                        let i = self.new_id();
                        self.proms.insert(key, i);
                        if r.def_id().is_local() {
                            let b = tcx.mir_for_ctfe(r.def_id()).clone();
                            let b = r.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b));
                            let nm = self.path(r.def_id());
                            self.body(&b, &nm, "const", i, env, r.def_id(), "");
                        }
                        i
                    };
                    return format!("{{\"c\":\"promoted\",\"fn\":{},\"t\":{}{}}}", id, tid, named);
                }
            }
        }
        let dbg = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}{}}}", tid, esc(&dbg), named)
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(&c.const_, env, c.span)),
            #[allow(unreachable_patterns)]
            _ => "[\"const\",{\"c\":\"opaque\",\"t\":0,\"s\":\"runtimecheck\"}]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o, body, env), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p, body), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, body, env);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(x, body, env), self.operand(y, body, env))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, body, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, fs) => {
                let fs: Vec<String> = fs.iter().map(|f| self.operand(f, body, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("[\"adt\",{},{},{}]", esc(&self.path(*d)), v.as_usize(), self.ty(t))
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let id = self.inst(Instance::new_raw(*d, args), env);
                        format!("[\"closure\",{}]", id)
                    }
                    k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
                };
                format!("[\"agg\",{},{}]", k, arr(fs))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, body)),
            r => {
                // Reborrow and anything new: keep the place if there is one
                let s = format!("{:?}", r);
                if let Some(p) = reborrow_place(r) {
                    format!("[\"ref\",{},true]", self.place(&p, body))
                } else {
                    format!("[\"unknown\",{}]", esc(&s))
                }
            }
        }
    }
    fn body(&mut self, body: &Body<'tcx>, name: &str, kind: &str, id: usize, env: TypingEnv<'tcx>, def: DefId, extra: &str) {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    dbg.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                let (_, line) = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let r = self.rvalue(r, body, env);
                        st.push(format!("[\"=\",{},{},{}]", self.place(p, body), r, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{},{}]", self.place(place, body), variant_index.as_usize(), line));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let (_, line) = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            let v = match dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    (((v << (128 - bits)) as i128) >> (128 - bits)).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", v, t.as_usize())
                        })
                        .collect();
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, body, env), arr(ts), targets.otherwise().as_usize(), dti)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place, body), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    let fty = func.ty(body, tcx);
                    let _ = fty;
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination, body),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len, body, env), self.operand(index, body, env)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![self.operand(a, body, env), self.operand(b, body, env)]),
                        AssertKind::OverflowNeg(a) => ("overflowneg".into(), vec![self.operand(a, body, env)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a, body, env)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a, body, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},\"{}\",{},{}]", self.operand(cond, body, env), expected, k, arr(ops), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                _ => "[\"dead\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"u\":{}}}", arr(st), tj, line, b.is_cleanup));
        }
        let (file, line) = self.span(tcx.def_span(def));
        let j = format!(
            "{{\"id\":{},\"name\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"argc\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}{}}}",
            id,
            esc(name),
            kind,
            esc(&file),
            line,
            body.arg_count,
            arr(locals),
            arr(dbg),
            arr(blocks),
            extra
        );
        self.bodies.push((id, j));
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let ev = tcx.effective_visibilities(());
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let id = self.inst(Instance::new_raw(d, args), env);
            let mut impl_info = String::new();
            let parent = tcx.parent(d);
            if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                let st = self.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip());
                let _ = write!(impl_info, ",\"self\":{}", st);
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = tr.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(impl_info, ",\"trait\":{},\"trargs\":{}", esc(&self.path(tr.def_id)), arr(targs));
                }
            }
            let generic = ty::GenericArgs::identity_for_item(tcx, d).iter().any(|a| a.as_type().is_some());
            roots.push(format!(
                "{{\"fn\":{},\"path\":{},\"name\":{},\"pub\":{},\"reach\":{},\"generic\":{}{}}}",
                id,
                esc(&self.path(d)),
                esc(tcx.item_name(d).as_str()),
                ev.is_exported(k),
                ev.is_reachable(k),
                generic,
                impl_info
            ));
        }
        while let Some((inst, env, id)) = self.work.pop() {
            let d = inst.def_id();
            if !self.has_body(d) {
                continue;
            }
            let b = tcx.instance_mir(inst.def).clone();
            let b = if inst.args.has_escaping_bound_vars() { b } else { inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b)) };
            let nm = self.path(d);
            let kind = match tcx.def_kind(d) {
                DefKind::Closure => "closure",
                _ => "fn",
            };
            let targs: Vec<String> = inst.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
            let mut extra = format!(",\"targs\":{}", arr(targs));
            if kind == "closure" {
                let _ = write!(extra, ",\"ck\":\"{:?}\"", inst.args.as_closure().kind());
            }
            self.body(&b, &nm, kind, id, env, d, &extra);
        }
        // public ADTs and trait impls (for the type-level rules)
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    let rep = tcx.adt_def(d).repr();
                    adts.push(format!("{{\"path\":{},\"ty\":{},\"pub\":{},\"repr\":{}}}", esc(&self.path(d)), t, ev.is_exported(id.owner_id.def_id), esc(&format!("{:?}", rep.int))));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(tr.self_ty());
                    let p = self.path(tr.def_id);
                    impls.push(format!("{{\"trait\":{},\"self\":{}}}", esc(&p), st));
                }
                _ => {}
            }
        }
        let mut consts = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Const { .. } = tcx.def_kind(d) {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let c = mir::Const::Unevaluated(UnevaluatedConst { def: d, args, promoted: None }, t);
                let j = self.konst(&c, TypingEnv::fully_monomorphized(), tcx.def_span(d));
                consts.push(format!("{{\"path\":{},\"pub\":{},\"v\":{}}}", esc(&self.path(d)), ev.is_exported(id.owner_id.def_id), j));
            }
        }
        let fns: Vec<String> = self.bodies.iter().map(|(_, j)| j.clone()).collect();
        format!(
            "{{\"types\":{},\"roots\":{},\"adts\":{},\"impls\":{},\"consts\":{},\"fns\":{}}}",
            arr(self.types.clone()),
            arr(roots),
            arr(adts),
            arr(impls),
            arr(consts),
            arr(fns)
        )
    }
}

fn reborrow_place<'tcx>(r: &Rvalue<'tcx>) -> Option<Place<'tcx>> {
    match r {
        Rvalue::Reborrow(_, _, p) => Some(*p),
        _ => None,
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = D { tcx, types: vec![], tymap: HashMap::new(), insts: HashMap::new(), work: vec![], bodies: vec![], proms: HashMap::new(), nfn: 0 };
        let unit = tcx.types.unit;
        d.ty(unit);
        let j = d.run();
        std::fs::write(&self.out, j).unwrap();
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("VFACTS_CRATE").ok();
    let out = std::env::var("VFACTS_OUT").ok();
    let hit = krate.is_some() && krate == want && out.is_some() && !args.iter().any(|a| a == "--test");
    let code = rustc_driver::catch_with_exit_code(move || {
        if hit {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out: out.unwrap() })
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        }
    });
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 })
}
