//! MIR dumper: runs as RUSTC_WORKSPACE_WRAPPER, writes the type-checked program of one crate as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    decls: Option<&'tcx LocalDecls<'tcx>>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        if d.is_local() {
            self.tcx.def_path(d).to_string_no_crate_verbose()
        } else {
            format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = with_no_trimmed_paths!(format!("{t}"));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(*def);
                let a = self.gargs(args);
                format!("\"k\":\"adt\",\"d\":{},\"a\":{}", js(&self.path(def.did())), a)
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), x)
            }
            ty::Slice(inner) => {
                let x = self.ty(*inner);
                format!("\"k\":\"slice\",\"t\":{}", x)
            }
            ty::Array(inner, n) => {
                let x = self.ty(*inner);
                let n = with_no_trimmed_paths!(format!("{n}"));
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", x, js(&n))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"d\":{}", js(&self.key(*d))),
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"d\":{}", js(&self.path(*d))),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", js(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"uint\",\"n\":{}", js(x.name_str())),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_json[i] = format!("{{\"s\":{},{}}}", js(&s), body);
        i
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(js(&with_no_trimmed_paths!(format!("{c}")))),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        arr(v)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let path = self.path(def.did());
        let local = def.did().is_local();
        let mut vs = vec![];
        if def.is_enum() || local {
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { format!("{}", def.discriminant_for_variant(self.tcx, vi).val) } else { "0".into() };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    fs.push(format!("[{},{},{}]", js(f.name.as_str()), ti, f.vis.is_public()));
                }
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let sp = self.span(self.tcx.def_span(def.did()));
        let vis = self.tcx.visibility(def.did()).is_public();
        self.adts.insert(path.clone(), format!("{{\"kind\":{},\"local\":{},\"pub\":{},\"span\":{},\"variants\":{}}}", js(kind), local, vis, sp, arr(vs)));
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.index(), t)
                }
                ProjectionElem::Downcast(n, vi) => format!("[\"d\",{},{}]", vi.index(), js(&n.map(|s| s.to_string()).unwrap_or_default())),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                other => format!("[\"?\",{}]", js(&format!("{other:?}"))),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }
    fn read_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let s = off as usize;
                let e = s + len as usize;
                if e > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }
    fn int_size(&self, t: Ty<'tcx>) -> Option<u64> {
        match t.kind() {
            ty::Bool => Some(1),
            ty::Uint(u) => Some(u.bit_width().unwrap_or(64) / 8),
            ty::Int(u) => Some(u.bit_width().unwrap_or(64) / 8),
            ty::Char => Some(4),
            _ => None,
        }
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        match v {
            ConstValue::ZeroSized => None,
            ConstValue::Scalar(Scalar::Int(i)) => {
                let mut b = i.to_bits(i.size());
                if let ty::Int(_) = t.kind() {
                    let sh = 128 - i.size().bits();
                    let sv = ((b << sh) as i128) >> sh;
                    return Some(format!("\"int\":\"{sv}\""));
                }
                if i.size().bits() == 0 {
                    b = 0;
                }
                Some(format!("\"int\":\"{b}\""))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = t.kind() {
                    return self.mem(prov.alloc_id(), off.bytes(), *inner, env);
                }
                None
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.read_bytes(alloc_id, 0, meta)?;
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        return Some(format!("\"str\":{}", js(&String::from_utf8_lossy(&b))));
                    }
                }
                Some(format!("\"bytes\":{}", arr(b.iter().map(|x| x.to_string()))))
            }
            ConstValue::Indirect { alloc_id, offset } => self.mem(alloc_id, offset.bytes(), t, env),
        }
    }
    fn mem(&mut self, id: rustc_middle::mir::interpret::AllocId, off: u64, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let _ = AllocRange { start: rustc_abi::Size::ZERO, size: rustc_abi::Size::ZERO };
        match t.kind() {
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx)?;
                let es = self.int_size(*e)?;
                let b = self.read_bytes(id, off, n * es)?;
                let items: Vec<String> = b
                    .chunks(es as usize)
                    .map(|c| {
                        let mut x = 0u128;
                        for (i, y) in c.iter().enumerate() {
                            x |= (*y as u128) << (8 * i);
                        }
                        x.to_string()
                    })
                    .collect();
                Some(format!("\"bytes\":{}", arr(items)))
            }
            _ if self.int_size(t).is_some() => {
                let es = self.int_size(t)?;
                let b = self.read_bytes(id, off, es)?;
                let mut x = 0u128;
                for (i, y) in b.iter().enumerate() {
                    x |= (*y as u128) << (8 * i);
                }
                Some(format!("\"int\":\"{x}\",\"mem\":true"))
            }
            _ => {
                let _ = env;
                None
            }
        }
    }
    fn fninfo(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("\"path\":{},\"name\":{}", js(&self.path(did)), js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let ga = self.gargs(args);
        let _ = write!(o, ",\"ga\":{}", ga);
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let st = self.ty(args.type_at(0));
            let _ = write!(o, ",\"trait\":{},\"self\":{}", js(&self.path(tr)), st);
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"iself\":{}", st);
            if tcx.impl_opt_trait_ref(im).is_some() {
                let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"itrait\":{}", js(&self.path(trr.def_id)));
            }
        }
        if did.is_local() {
            let _ = write!(o, ",\"local\":{}", js(&self.key(did)));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, eargs) {
                let rd = inst.def_id();
                if rd != did || matches!(inst.def, ty::InstanceKind::Item(_)) {
                    let _ = write!(o, ",\"res\":{},\"reslocal\":{}", js(&self.key(rd)), rd.is_local());
                    if rd != did {
                        let _ = write!(o, ",\"respath\":{}", js(&self.path(rd)));
                    }
                }
            }
        }
        o
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("\"t\":{}", ti);
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let f = self.fninfo(*d, a, env);
            let _ = write!(o, ",\"fn\":{{{}}}", f);
            return format!("{{{}}}", o);
        }
        match c {
            Const::Unevaluated(u, _) => {
                let _ = write!(o, ",\"uneval\":{}", js(&self.path(u.def)));
                if u.def.is_local() {
                    let _ = write!(o, ",\"ukey\":{}", js(&self.key(u.def)));
                }
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"promoted\":{}", p.index());
                }
            }
            Const::Ty(_, k) => {
                let _ = write!(o, ",\"cty\":{}", js(&with_no_trimmed_paths!(format!("{k}"))));
            }
            _ => {}
        }
        let try_eval = match c {
            Const::Unevaluated(u, _) => !u.args.iter().any(|a| match a.kind() {
                GenericArgKind::Type(t) => has_param(t),
                GenericArgKind::Const(k) => matches!(k.kind(), ty::ConstKind::Param(_)),
                _ => false,
            }),
            Const::Ty(_, k) => !matches!(k.kind(), ty::ConstKind::Param(_)),
            _ => true,
        };
        if try_eval {
            if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                if let Some(s) = self.const_val(v, t, env) {
                    let _ = write!(o, ",{}", s);
                }
            }
        }
        format!("{{{}}}", o)
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(k) => {
                let s = self.konst(&k.const_, env);
                format!("[\"k\",{}]", s)
            }
            #[allow(unreachable_patterns)]
            other => format!("[\"?\",{}]", js(&format!("{other:?}"))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => {
                let n = with_no_trimmed_paths!(format!("{n}"));
                format!("[\"repeat\",{},{}]", self.operand(o, env), js(&n))
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", js(&format!("{k:?}")), self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o, env), t)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", js(&format!("{b:?}")), self.operand(&ops.0, env), self.operand(&ops.1, env)),
            Rvalue::UnaryOp(b, o) => format!("[\"un\",{},{}]", js(&format!("{b:?}")), self.operand(o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.decls.unwrap(), self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!("[\"adt\",{},{},{},{}]", js(&self.path(*d)), v.index(), js(def.variant(*v).name.as_str()), af.map(|x| x.index() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            other => format!("[\"?\",{}]", js(&format!("{other:?}"))),
        }
    }
    fn body(&mut self, b: &'tcx Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let mut o = String::new();
        self.decls = Some(&b.local_decls);
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"argc\":{},\"locals\":{}", b.arg_count, arr(locals));
        let mut dbg = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(o, ",\"dbg\":{}", arr(dbg));
        if let Some(s) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.index());
        }
        let mut blocks = vec![];
        for (_, d) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in d.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{p},{r},{sp}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{p},{}]", variant_index.index()));
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(x, b)| format!("[\"{}\",{}]", x, b.index())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, env), arr(v), targets.otherwise().index(), dt)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.index()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let v: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, arr(v), d, target.map(|t| t.index() as i64).unwrap_or(-1))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, env), self.operand(index, env)),
                        AssertKind::Overflow(op, a, b2) => format!("[\"overflow\",{},{},{}]", js(&format!("{op:?}")), self.operand(a, env), self.operand(b2, env)),
                        other => format!("[\"other\",{}]", js(&format!("{other:?}").chars().take(40).collect::<String>())),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, env), expected, target.index(), m)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                other => format!("[\"?\",{}]", js(&format!("{other:?}").chars().take(60).collect::<String>())),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", arr(st), ts, sp, d.is_cleanup));
        }
        let _ = write!(o, ",\"blocks\":{}", arr(blocks));
        o
    }
}

fn has_param(t: Ty<'_>) -> bool {
    t.walk().any(|g| match g.kind() {
        GenericArgKind::Type(t) => matches!(t.kind(), ty::Param(_) | ty::Alias(..)),
        GenericArgKind::Const(c) => matches!(c.kind(), ty::ConstKind::Param(_)),
        _ => false,
    })
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: BTreeMap::new(), adt_seen: HashSet::new(), decls: None };
        let mut bodies = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
        for k in keys {
            let did = k.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let env = body.typing_env(tcx);
            let mut o = format!("\"key\":{},\"path\":{},\"kind\":{},\"span\":{}", js(&cx.key(did)), js(&cx.path(did)), js(&format!("{kind:?}")), cx.span(tcx.def_span(did)));
            let _ = write!(o, ",\"name\":{}", js(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
            if kind != DefKind::Closure {
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(did).is_public());
                let _ = write!(o, ",\"reach\":{}", tcx.effective_visibilities(()).is_reachable(k));
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = write!(o, ",\"trait\":{}", js(&cx.path(tr)));
                }
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let _ = write!(o, ",\"iself\":{}", st);
                    if tcx.impl_opt_trait_ref(im).is_some() {
                        let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        let ta = cx.gargs(trr.args);
                        let _ = write!(o, ",\"itrait\":{},\"itargs\":{}", js(&cx.path(trr.def_id)), ta);
                    }
                }
                let g = tcx.generics_of(did);
                let mut gp = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gp.push(js(p.name.as_str()));
                    }
                }
                let _ = write!(o, ",\"gp\":{}", arr(gp));
            } else {
                let _ = write!(o, ",\"parent\":{}", js(&cx.key(tcx.typeck_root_def_id(did))));
            }
            let b = cx.body(body, env);
            let _ = write!(o, ",{}", b);
            let pr = tcx.promoted_mir(did);
            let mut ps = vec![];
            for p in pr.iter() {
                ps.push(format!("{{{}}}", cx.body(p, env)));
            }
            let _ = write!(o, ",\"promoted\":{}", arr(ps));
            bodies.push(format!("{{{}}}", o));
        }
        // all local ADTs, impls
        let mut impls = vec![];
        let mut statics: Vec<String> = vec![];
        let mut unsafes: Vec<String> = vec![];
        for did in tcx.hir_body_owners() {
            let mut v = UnsafeBlocks { tcx, found: vec![] };
            if tcx.is_typeck_child(did.to_def_id()) {
                continue;
            }
            rustc_hir::intravisit::Visitor::visit_body(&mut v, tcx.hir_body_owned_by(did));
            for sp in v.found {
                unsafes.push(format!("[{},{}]", js(&cx.path(did.to_def_id())), cx.span(sp)));
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let d = tcx.adt_def(did);
                    cx.adt(d);
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut o = format!("\"self\":{},\"span\":{}", st, cx.span(tcx.def_span(did)));
                    if of_trait {
                        let trr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        let neg = format!("{:?}", tcx.impl_polarity(did));
                        let h = tcx.impl_trait_header(did);
                        let unsafe_ = format!("{:?}", h.safety);
                        let ta = cx.gargs(trr.args);
                        let _ = write!(o, ",\"trait\":{},\"targs\":{},\"polarity\":{},\"safety\":{}", js(&cx.path(trr.def_id)), ta, js(&neg), js(&unsafe_));
                    }
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(format!("[{},{}]", js(&it.opt_name().map(|s| s.to_string()).unwrap_or_default()), js(&cx.key(it.def_id))));
                    }
                    let _ = write!(o, ",\"items\":{}", arr(items));
                    impls.push(format!("{{{}}}", o));
                }
                DefKind::Static { mutability, .. } => {
                    let ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let frozen = ty.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    let n = cx.path(did);
                    statics.push(format!("{{\"path\":{},\"span\":{},\"mut\":{},\"freeze\":{}}}", js(&n), cx.span(tcx.def_span(did)), mutability.is_mut(), frozen));
                }
                _ => {}
            }
        }
        let mut s = String::new();
        let cfgs: Vec<String> = std::env::args().collect::<Vec<_>>().windows(2).filter(|w| w[0] == "--cfg").map(|w| js(&w[1])).collect();
        let nonce = std::env::var("MIRDUMP_NONCE").unwrap_or_default();
        let _ = write!(
            s,
            "{{\"nonce\":{},\"crate\":{},\"cfg\":{},\"types\":{},\"adts\":{{{}}},\"impls\":{},\"statics\":{},\"unsafe\":{},\"bodies\":[\n{}\n]}}",
            js(&nonce),
            js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(cfgs),
            arr(std::mem::take(&mut cx.type_json)),
            cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            arr(impls),
            arr(statics),
            arr(unsafes),
            bodies.join(",\n")
        );
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

/// Collects hand-written unsafe blocks.
struct UnsafeBlocks<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeBlocks<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let outer = b.span.ctxt().outer_expn_data();
            if outer.macro_def_id.map_or(true, |d| d.is_local()) {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a workspace wrapper, argv[1] is the path of the real rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib")) && !args.iter().any(|a| a == "--test");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let code = if crate_name == want && is_lib && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
        args.extend(std::env::var("MIRDUMP_ARGS").unwrap_or_default().split_whitespace().map(String::from));
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Dump { out }))
    } else {
        rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Plain))
    };
    rustc_exit(code)
}
fn rustc_exit(code: std::process::ExitCode) -> ! {
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 })
}
