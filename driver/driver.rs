// MIR fact extractor.  Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
// For every workspace crate it writes $MLS_FACTS/<crate>-<n>.json with the
// drop-elaborated, type-checked MIR of every function (plus the bodies of a
// small allow-list of generic std helpers), the layouts of every ADT mentioned,
// evaluated constants and the trait-impl tables.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let dir = match std::env::var("MLS_FACTS") {
            Ok(d) => d,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name == "build_script_build" {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx::new(tcx);
        let out = cx.dump_crate();
        let path = format!("{}/{}-{}.json", dir, name, std::process::id());
        std::fs::write(&path, out).unwrap();
        rustc_driver::Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    ext_queue: Vec<DefId>,
    ext_seen: HashSet<DefId>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                write!(o, "\\u{:04x}", c as u32).unwrap()
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            ext_queue: vec![],
            ext_seen: HashSet::new(),
        }
    }

    fn key(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).replace("Fingerprint", "").replace(|c: char| !c.is_alphanumeric() && c != '-', "")
    }

    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_forced_impl_filename_line!(self.tcx.def_path_str(d))
            )
        );
        let _ = p;
        let p = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
        );
        if d.is_local() {
            let cn = self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            if p.starts_with('<') {
                format!("{}::{}", cn, p)
            } else {
                format!("{}::{}", cn, p)
            }
        } else {
            p
        }
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let p = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(t.to_string())
            )
        );
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, i);
        let s = esc(&self.ty_str(t));
        let body = match *t.kind() {
            TyKind::Bool => r#""k":"bool""#.to_string(),
            TyKind::Char => r#""k":"char""#.to_string(),
            TyKind::Int(it) => format!(
                r#""k":"int","signed":true,"bits":{}"#,
                it.bit_width().unwrap_or(64)
            ),
            TyKind::Uint(it) => format!(
                r#""k":"int","signed":false,"bits":{}"#,
                it.bit_width().unwrap_or(64)
            ),
            TyKind::Float(_) => r#""k":"float""#.to_string(),
            TyKind::Str => r#""k":"str""#.to_string(),
            TyKind::Never => r#""k":"never""#.to_string(),
            TyKind::Adt(def, args) => {
                let k = self.key(def.did());
                self.adt(def);
                let a = self.args(args);
                format!(r#""k":"adt","adt":{},"args":{}"#, esc(&k), a)
            }
            TyKind::Ref(_, inner, m) => {
                let x = self.ty(inner);
                format!(r#""k":"ref","mut":{},"to":{}"#, m.is_mut(), x)
            }
            TyKind::RawPtr(inner, m) => {
                let x = self.ty(inner);
                format!(r#""k":"ptr","mut":{},"to":{}"#, m.is_mut(), x)
            }
            TyKind::Slice(inner) => {
                let x = self.ty(inner);
                format!(r#""k":"slice","of":{}"#, x)
            }
            TyKind::Array(inner, n) => {
                let x = self.ty(inner);
                let l = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","of":{},"len":{}"#, x, l)
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!(r#""k":"tuple","of":{}"#, join(&v))
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!(r#""k":"closure","def":{},"upvars":{}"#, esc(&self.key(d)), join(&ups))
            }
            TyKind::FnDef(d, args) => {
                let a = self.args(args.no_bound_vars().unwrap_or(ty::List::empty()));
                format!(r#""k":"fndef","def":{},"path":{},"args":{}"#, esc(&self.key(d)), esc(&self.path(d)), a)
            }
            TyKind::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                let pk = preds.principal_def_id().map(|d| self.key(d)).unwrap_or_default();
                format!(r#""k":"dyn","trait":{},"traitkey":{}"#, esc(&p), esc(&pk))
            }
            TyKind::Param(p) => format!(r#""k":"param","name":{}"#, esc(p.name.as_str())),
            TyKind::Alias(..) => r#""k":"alias""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        join(&v)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let k = self.key(def.did());
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, ty::util::Discr<'tcx>)> =
            if def.is_enum() { def.discriminants(self.tcx).collect() } else { vec![] };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(ft);
                fs.push(format!(
                    r#"{{"name":{},"ty":{},"pub":{}}}"#,
                    esc(f.name.as_str()),
                    ti,
                    f.vis.is_public()
                ));
            }
            let d = discrs
                .iter()
                .find(|(i, _)| *i == vi)
                .map(|(_, d)| d.val.to_string())
                .unwrap_or("0".into());
            vs.push(format!(
                r#"{{"name":{},"discr":{},"fields":{}}}"#,
                esc(v.name.as_str()),
                d,
                join(&fs)
            ));
        }
        let repr = def.repr();
        let ri = match repr.int { Some(i) => format!("{:?}", i), None => String::new() };
        let has_drop = self.tcx.adt_destructor(def.did()).map(|d| self.key(d.did)).unwrap_or_default();
        let generics = self.tcx.generics_of(def.did());
        let mut gn: Vec<String> = vec![];
        for p in &generics.own_params {
            if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                gn.push(esc(p.name.as_str()));
            }
        }
        let s = format!(
            r#"{{"path":{},"crate":{},"kind":"{}","transparent":{},"repr_int":{},"drop":{},"generics":{},"variants":{}}}"#,
            esc(&self.path(def.did())),
            esc(self.tcx.crate_name(def.did().krate).as_str()),
            kind,
            repr.transparent(),
            esc(&ri),
            esc(&has_drop),
            join(&gn),
            join(&vs)
        );
        self.adts.insert(k, s);
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let ti = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), ti)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), join(&v))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let a = self.args(args);
        let tr = match self.tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.path(t)),
            None => "null".into(),
        };
        let mut tmt = "null".to_string();
        if self.tcx.trait_of_assoc(d).is_some() {
            tmt = esc(self.tcx.item_name(d).as_str());
        }
        let impl_self = match self.tcx.impl_of_assoc(d) {
            Some(i) => {
                let t = self.tcx.type_of(i).instantiate_identity().skip_norm_wip();
                self.ty(t).to_string()
            }
            None => "null".into(),
        };
        let res = {
            let args = self.tcx.erase_and_anonymize_regions(args);
            match Instance::try_resolve(self.tcx, env, d, args) {
                Ok(Some(i)) => {
                    let kind = match i.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        ty::InstanceKind::Intrinsic(..) => "intrinsic",
                        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                        ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                        ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                        ty::InstanceKind::Shim(ty::ShimKind::Reify(..)) => "reify",
                        _ => "shim",
                    };
                    let mut id = i.def_id();
                    if let ty::InstanceKind::Shim(ty::ShimKind::FnPtr(_, t)) = i.def {
                        if let TyKind::FnDef(fd, _) = *t.kind() {
                            id = fd;
                        }
                    }
                    self.want_ext(id);
                    let ra = self.args(i.args);
                    format!(
                        r#"{{"key":{},"path":{},"kind":"{}","args":{}}}"#,
                        esc(&self.key(id)),
                        esc(&self.path(id)),
                        kind,
                        ra
                    )
                }
                _ => "null".into(),
            }
        };
        self.want_ext(d);
        format!(
            r#"{{"key":{},"path":{},"name":{},"crate":{},"args":{},"trait":{},"impl_self":{},"res":{}}}"#,
            esc(&self.key(d)),
            esc(&self.path(d)),
            esc(&self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()),
            esc(self.tcx.crate_name(d.krate).as_str()),
            a,
            tr,
            impl_self,
            res
        )
    }

    fn want_ext(&mut self, d: DefId) {
        if d.is_local() || self.ext_seen.contains(&d) {
            return;
        }
        self.ext_seen.insert(d);
        let cn = self.tcx.crate_name(d.krate);
        let cn = cn.as_str();
        let p = self.path(d);
        let allow = cn == "core"
            && ["option", "result", "ops::control_flow", "ops::try_trait", "bool", "cmp", "convert", "iter::range", "ops::function", "iter::traits::collect", "ops::range", "array::iter", "clone", "tuple", "char::methods", "iter::adapters", "iter::traits::iterator", "iter::sources"]
                .iter()
                .any(|m| p.contains(&format!("core::{}::", m)) || p.contains(&format!("core::{}>", m)) || p.contains(&format!("std::{}::", m)))
            || (cn == "threadpool" || cn == "lsp_server" || cn == "rowan" || cn == "salsa" || cn == "drop_bomb");
        if allow && self.tcx.def_kind(d).is_fn_like() && self.tcx.is_mir_available(d) {
            self.ext_queue.push(d);
        }
    }

    fn const_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "[\"opaque\"]".into();
        }
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(s) = v.try_to_scalar() {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let size = i.size();
                        let u = i.to_bits(size);
                        let n = if let TyKind::Int(_) = *t.kind() {
                            (size.sign_extend(u) as i128).to_string()
                        } else {
                            u.to_string()
                        };
                        return format!("[\"int\",{}]", n);
                    }
                }
                // Indirect scalar: read from memory
                if let Some(n) = self.read_indirect_int(v, t, env) {
                    return format!("[\"int\",{}]", n);
                }
                "[\"opaque\"]".into()
            }
            TyKind::FnDef(d, args) => {
                let c = self.callee(d, args.no_bound_vars().unwrap_or(ty::List::empty()), env);
                format!("[\"fn\",{}]", c)
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), TyKind::Slice(t) if *t == tcx.types.u8) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                        }
                        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        return format!("[\"bytes\",{}]", join(&v));
                    }
                    if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                        if let Some(s) = self.read_fat(alloc_id, offset, inner, env, depth) {
                            return s;
                        }
                    }
                    return "[\"opaque\"]".into();
                }
                if let TyKind::Slice(el) = *inner.kind() {
                    if let mir::ConstValue::Slice { alloc_id, meta } = v {
                        let mut out = vec![];
                        if let Ok(l) = tcx.layout_of(env.as_query_input(el)) {
                            for i in 0..meta {
                                let x = self.const_val(
                                    mir::ConstValue::Indirect { alloc_id, offset: l.size * i },
                                    el,
                                    env,
                                    depth + 1,
                                );
                                out.push(x);
                            }
                            return format!("[\"ref\",[\"array\",{}]]", join(&out));
                        }
                    }
                    if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                        if let Some(s) = self.read_fat(alloc_id, offset, inner, env, depth) {
                            return s;
                        }
                    }
                    return "[\"opaque\"]".into();
                }
                // thin pointer
                let ptr = match v {
                    mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => Some(p),
                    mir::ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset),
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    match tcx.try_get_global_alloc(aid) {
                        Some(mir::interpret::GlobalAlloc::Memory(_)) => {
                            let x = self.const_val(
                                mir::ConstValue::Indirect { alloc_id: aid, offset: off },
                                inner,
                                env,
                                depth + 1,
                            );
                            return format!("[\"ref\",{}]", x);
                        }
                        Some(mir::interpret::GlobalAlloc::Static(d)) => {
                            return format!("[\"static\",{},{}]", esc(&self.key(d)), esc(&self.path(d)));
                        }
                        Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                            let c = self.callee(instance.def_id(), instance.args, env);
                            return format!("[\"fn\",{}]", c);
                        }
                        _ => {}
                    }
                }
                "[\"opaque\"]".into()
            }
            TyKind::FnPtr(..) => {
                let ptr = match v {
                    mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => Some(p),
                    mir::ConstValue::Indirect { alloc_id, offset } => self.read_ptr(alloc_id, offset),
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, _) = p.into_raw_parts();
                    if let Some(mir::interpret::GlobalAlloc::Function { instance }) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let c = self.callee(instance.def_id(), instance.args, env);
                        return format!("[\"fn\",{}]", c);
                    }
                }
                "[\"opaque\"]".into()
            }
            TyKind::Tuple(ts) if ts.is_empty() => "[\"tuple\",[]]".into(),
            TyKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(d))),
            TyKind::Adt(..) | TyKind::Tuple(_) | TyKind::Array(..) => {
                if let TyKind::Adt(def, _) = *t.kind() {
                    self.adt(def);
                    if def.is_union() {
                        return "[\"opaque\"]".into();
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fields: Vec<String> = d
                            .fields
                            .iter()
                            .map(|(fv, ft)| self.const_val(*fv, *ft, env, depth + 1))
                            .collect();
                        match *t.kind() {
                            TyKind::Adt(def, _) => format!(
                                "[\"adt\",{},{},{}]",
                                esc(&self.key(def.did())),
                                d.variant.map(|v| v.as_usize()).unwrap_or(0),
                                join(&fields)
                            ),
                            TyKind::Tuple(_) => format!("[\"tuple\",{}]", join(&fields)),
                            _ => format!("[\"array\",{}]", join(&fields)),
                        }
                    }
                    None => "[\"opaque\"]".into(),
                }
            }
            _ => "[\"opaque\"]".into(),
        }
    }

    fn read_ptr(&self, aid: mir::interpret::AllocId, off: rustc_abi::Size) -> Option<mir::interpret::Pointer> {
        let alloc = match self.tcx.try_get_global_alloc(aid) {
            Some(mir::interpret::GlobalAlloc::Memory(a)) => a,
            _ => return None,
        };
        let ps = self.tcx.data_layout.pointer_size();
        let s = alloc
            .inner()
            .read_scalar(&self.tcx, mir::interpret::alloc_range(off, ps), true)
            .ok()?;
        match s {
            mir::interpret::Scalar::Ptr(p, _) => Some(p),
            _ => None,
        }
    }

    fn read_fat(
        &mut self,
        aid: mir::interpret::AllocId,
        off: rustc_abi::Size,
        inner: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> Option<String> {
        let tcx = self.tcx;
        let p = self.read_ptr(aid, off)?;
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(mir::interpret::GlobalAlloc::Memory(a)) => a,
            _ => return None,
        };
        let ps = tcx.data_layout.pointer_size();
        let len = alloc
            .inner()
            .read_scalar(&tcx, mir::interpret::alloc_range(off + ps, ps), false)
            .ok()?
            .try_to_scalar_int()
            .ok()?
            .to_bits(ps) as u64;
        let (prov, doff) = p.into_raw_parts();
        let data = match tcx.try_get_global_alloc(prov.alloc_id()) {
            Some(mir::interpret::GlobalAlloc::Memory(a)) => a,
            _ => return None,
        };
        if inner.is_str() {
            let b = data.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                doff.bytes_usize()..doff.bytes_usize() + len as usize,
            );
            return Some(format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b))));
        }
        if let TyKind::Slice(el) = *inner.kind() {
            let l = tcx.layout_of(env.as_query_input(el)).ok()?;
            let mut out = vec![];
            for i in 0..len {
                out.push(self.const_val(
                    mir::ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: doff + l.size * i },
                    el,
                    env,
                    depth + 1,
                ));
            }
            return Some(format!("[\"ref\",[\"array\",{}]]", join(&out)));
        }
        None
    }

    fn read_indirect_int(&mut self, v: mir::ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        if let mir::ConstValue::Indirect { alloc_id, offset } = v {
            let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
            let alloc = match self.tcx.try_get_global_alloc(alloc_id) {
                Some(mir::interpret::GlobalAlloc::Memory(a)) => a,
                _ => return None,
            };
            let s = alloc
                .inner()
                .read_scalar(&self.tcx, mir::interpret::alloc_range(offset, l.size), false)
                .ok()?
                .try_to_scalar_int()
                .ok()?;
            let u = s.to_bits(l.size);
            return Some(if let TyKind::Int(_) = *t.kind() {
                (l.size.sign_extend(u) as i128).to_string()
            } else {
                u.to_string()
            });
        }
        None
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let TyKind::FnDef(d, args) = *t.kind() {
            let cal = self.callee(d, args.no_bound_vars().unwrap_or(ty::List::empty()), env);
            return format!("[{},[\"fn\",{}]]", ti, cal);
        }
        let mut from = "null".to_string();
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                from = format!("[{},{}]", esc(&self.key(u.def)), esc(&self.path(u.def)));
            }
        }
        let v = match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => self.const_val(v, t, env, 0),
            Err(_) => "[\"opaque\"]".into(),
        };
        format!("[{},{},{}]", ti, v, from)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            _ => "[\"k\",[0,[\"int\",1],null]]".to_string(), // RuntimeChecks: treat as enabled
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, env)),
            Rvalue::Repeat(o, n) => {
                let l = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.op(o, env), l)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(k, p) => {
                format!("[\"ptr\",{},{}]", !matches!(k, RawPtrKind::Const), self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.op(o, env), ti)
            }
            Rvalue::BinaryOp(b, ops) => {
                let (x, y) = (&ops.0, &ops.1);
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x, env), self.op(y, env))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o, env)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o, env)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!("[\"adt\",{},{},{}]", esc(&self.key(*d)), vi.as_usize(), esc(&self.path(*d)))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, join(&v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{},{}]", esc(&self.key(*d)), esc(&self.path(*d))),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }
    fn mac(&self, sp: rustc_span::Span) -> String {
        // outermost macro name, if any
        let mut name = String::new();
        let mut s = sp;
        let mut n = 0;
        while s.from_expansion() && n < 20 {
            let d = s.ctxt().outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(_, m) = d.kind {
                name = m.to_string();
            }
            s = d.call_site;
            n += 1;
        }
        name
    }

    fn body(&mut self, did: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let env = TypingEnv::post_analysis(tcx, did);
        let b: &Body<'tcx> = tcx.optimized_mir(did);
        self.body_of(did, b, env, kind)
    }

    fn body_of(&mut self, did: DefId, b: &Body<'tcx>, env: TypingEnv<'tcx>, kind: DefKind) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(b.span.source_callsite().lo());
        let file = loc.file.name.prefer_remapped_unconditionally().to_string();
        write!(
            o,
            r#"{{"key":{},"path":{},"crate":{},"name":{},"kind":"{:?}","file":{},"line":{},"argc":{}"#,
            esc(&self.key(did)),
            esc(&self.path(did)),
            esc(tcx.crate_name(did.krate).as_str()),
            esc(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()),
            kind,
            esc(&file),
            loc.line,
            b.arg_count
        )
        .unwrap();
        if matches!(kind, DefKind::Closure) {
            let par = tcx.typeck_root_def_id(did);
            write!(o, r#","root":{},"parent":{}"#, esc(&self.key(par)), esc(&self.key(tcx.parent(did)))).unwrap();
        }
        let pubv = !matches!(kind, DefKind::Closure) && tcx.visibility(did).is_public();
        write!(o, r#","pub":{}"#, pubv).unwrap();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            write!(o, r#","unsafe":{}"#, tcx.fn_sig(did).skip_binder().safety().is_unsafe()).unwrap();
            write!(o, r#","const":{}"#, tcx.is_const_fn(did)).unwrap();
        }
        if let Some(i) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let ti = self.ty(st);
            let tr = tcx
                .impl_opt_trait_ref(i)
                .map(|t| esc(&self.path(t.skip_binder().def_id)))
                .unwrap_or("null".into());
            let has_derive = tcx.is_builtin_derived(i);
            write!(o, r#","impl_self":{},"impl_trait":{},"derived":{}"#, ti, tr, has_derive).unwrap();
        } else if let Some(t) = tcx.trait_of_assoc(did) {
            write!(o, r#","in_trait":{}"#, esc(&self.path(t))).unwrap();
        }
        let is_test = false;
        // locals
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let ti = self.ty(d.ty);
            match names.get(&l.as_usize()) {
                Some(n) => ls.push(format!("[{},{}]", ti, esc(n))),
                None => ls.push(format!("[{}]", ti)),
            }
        }
        write!(o, r#","locals":{}"#, join(&ls)).unwrap();
        let mut bs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = (&pr.0, &pr.1);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, env), ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), ln));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), ln))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let mac = self.mac(t.source_info.span);
            let un = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#"{{"k":"goto","t":{}}}"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<String> =
                        targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(dt);
                    format!(
                        r#"{{"k":"switch","op":{},"ty":{},"vals":{},"else":{}}}"#,
                        self.op(discr, env),
                        ti,
                        join(&vs),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => r#"{"k":"ret"}"#.to_string(),
                TerminatorKind::Unreachable => r#"{"k":"unreachable"}"#.to_string(),
                TerminatorKind::UnwindResume => r#"{"k":"resume"}"#.to_string(),
                TerminatorKind::UnwindTerminate(_) => r#"{"k":"abort"}"#.to_string(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let ti = self.ty(pt);
                    let nd = pt.needs_drop(tcx, env);
                    format!(
                        r#"{{"k":"drop","p":{},"ty":{},"nd":{},"t":{},"u":{}}}"#,
                        self.place(place),
                        ti,
                        nd,
                        target.as_usize(),
                        un(unwind)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!(
                        r#"{{"k":"call","f":{},"args":{},"dst":{},"t":{},"u":{}}}"#,
                        self.op(func, env),
                        join(&av),
                        self.place(destination),
                        tg,
                        un(unwind)
                    )
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let av: Vec<String> = args.iter().map(|a| self.op(&a.node, env)).collect();
                    format!(
                        r#"{{"k":"tailcall","f":{},"args":{}}}"#,
                        self.op(func, env),
                        join(&av)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = format!("{:?}", msg);
                    format!(
                        r#"{{"k":"assert","cond":{},"exp":{},"msg":{},"t":{},"u":{}}}"#,
                        self.op(cond, env),
                        expected,
                        esc(&m),
                        target.as_usize(),
                        un(unwind)
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, real_target.as_usize())
                }
                _ => r#"{"k":"other"}"#.to_string(),
            };
            let mut ts = ts;
            ts.pop();
            write!(ts, r#","line":{}"#, ln).unwrap();
            if !mac.is_empty() {
                write!(ts, r#","mac":{}"#, esc(&mac)).unwrap();
            }
            ts.push('}');
            bs.push(format!(r#"{{"s":{},"t":{},"c":{}}}"#, join(&ss), ts, bb.is_cleanup));
        }
        write!(o, r#","blocks":{}}}"#, join(&bs)).unwrap();
        o
    }

    fn is_test_item(&self, did: DefId) -> bool {
        false
    }

    fn dump_crate(&mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut consts = vec![];
        let mut statics = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) {
                        continue;
                    }
                    if tcx.is_coroutine(did) {
                        continue;
                    }
                    // closures inside consts/statics initialisers are fine too
                    let s = self.body(did);
                    fns.push(s);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        continue;
                    }
                    let env = TypingEnv::post_analysis(tcx, did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let vs = self.const_val(v, t, env, 0);
                        let ti = self.ty(t);
                        consts.push(format!(
                            r#"{{"key":{},"path":{},"ty":{},"val":{}}}"#,
                            esc(&self.key(did)),
                            esc(&self.path(did)),
                            ti,
                            vs
                        ));
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did));
                    statics.push(format!(
                        r#"{{"key":{},"path":{},"ty":{},"mut":{},"freeze":{},"tls":{}}}"#,
                        esc(&self.key(did)),
                        esc(&self.path(did)),
                        ti,
                        matches!(kind, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }),
                        freeze,
                        tcx.is_thread_local_static(did)
                    ));
                }
                _ => {}
            }
        }
        // all local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                self.adt(tcx.adt_def(did));
            }
        }
        // impls
        let mut impls = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()).iter() {
            for i in list {
                let did = i.to_def_id();
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(st);
                let mut ms = vec![];
                for item in tcx.associated_items(did).in_definition_order() {
                    if item.is_fn() {
                        let tk = item
                            .trait_item_def_id()
                            .map(|d| self.key(d))
                            .unwrap_or_default();
                        ms.push(format!(
                            "[{},{},{}]",
                            esc(item.name().as_str()),
                            esc(&self.key(item.def_id)),
                            esc(&tk)
                        ));
                    }
                }
                impls.push(format!(
                    r#"{{"trait":{},"traitkey":{},"self":{},"methods":{}}}"#,
                    esc(&self.path(*tr)),
                    esc(&self.key(*tr)),
                    ti,
                    join(&ms)
                ));
            }
        }
        // external bodies
        let mut ext = vec![];
        let mut n = 0;
        while let Some(d) = self.ext_queue.pop() {
            n += 1;
            if n > 3000 {
                break;
            }
            let s = self.body(d);
            ext.push(s);
        }
        let src: Vec<String> = tcx
            .sess
            .source_map()
            .files()
            .iter()
            .filter(|f| f.cnum == rustc_hir::def_id::LOCAL_CRATE)
            .map(|f| esc(&f.name.prefer_remapped_unconditionally().to_string()))
            .collect();
        let adts: Vec<String> =
            self.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let ct: Vec<String> = tcx.crate_types().iter().map(|t| esc(&format!("{:?}", t))).collect();
        format!(
            "{{\"crate\":{},\"crate_types\":{},\"files\":{},\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"consts\":[\n{}\n],\"statics\":[\n{}\n],\"impls\":[\n{}\n],\"fns\":[\n{}\n],\"ext\":[\n{}\n]}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            join(&ct),
            join(&src),
            self.types.join(",\n"),
            adts.join(",\n"),
            consts.join(",\n"),
            statics.join(",\n"),
            impls.join(",\n"),
            fns.join(",\n"),
            ext.join(",\n")
        )
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    a.remove(0);
    rustc_driver::compiler_entrypoint(&a, &mut Cb);
}
