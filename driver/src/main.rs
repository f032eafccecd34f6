//! MIR dumper: compiles a crate with the ordinary rustc front end and writes the monomorphic MIR of
//! every function reachable from the crate's own non-generic functions (std included where its MIR
//! is available), with resolved callees, type layouts and constants, as one JSON file.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dump {
    types: BTreeMap<usize, Value>,
    seen_ty: HashSet<Ty>,
    ty_queue: VecDeque<Ty>,
    allocs: BTreeMap<usize, Value>,
    alloc_seen: HashSet<usize>,
    inst_ids: HashMap<Instance, usize>,
    inst_queue: VecDeque<(Instance, usize)>,
    fns: BTreeMap<usize, Value>,
    spans: BTreeMap<usize, Value>,
    virtuals: Vec<(usize, FnDef, GenericArgs)>,
    dyn_srcs: HashSet<(Ty, Ty)>,
}

/// as JSON; a 128-bit number too large for a JSON integer comes out as a string
fn val<T: serde::Serialize>(t: &T) -> Value {
    if let Ok(v) = serde_json::to_value(t) {
        return v;
    }
    let (mut out, mut quoted, mut escaped) = (String::new(), false, false);
    let text = serde_json::to_string(t).unwrap() + " ";
    let mut number = String::new();
    for c in text.chars() {
        if !quoted && (c == '-' || c.is_ascii_digit()) {
            number.push(c);
            continue;
        }
        if !number.is_empty() {
            let small = number.parse::<u64>().is_ok() || number.parse::<i64>().is_ok();
            out += &if small { number.clone() } else { format!("\"{number}\"") };
            number.clear();
        }
        match c {
            _ if escaped => escaped = false,
            '\\' => escaped = true,
            '"' => quoted = !quoted,
            _ => (),
        }
        out.push(c);
    }
    serde_json::from_str(&out).unwrap()
}

fn ty_id(t: Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}

impl Dump {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let n = self.inst_ids.len();
        self.inst_ids.insert(i, n);
        self.inst_queue.push_back((i, n));
        n
    }
    fn ty(&mut self, t: Ty) {
        if self.seen_ty.insert(t) {
            self.ty_queue.push_back(t);
        }
    }
    fn span(&mut self, s: Span) {
        let id = serde_json::to_value(s).unwrap().as_u64().unwrap() as usize;
        if !self.spans.contains_key(&id) {
            let l = s.get_lines();
            let f = s.get_filename().to_string();
            self.spans.insert(id, json!([f, l.start_line]));
        }
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let mut v = vec![];
        for k in &a.0 {
            match k {
                GenericArgKind::Type(t) => {
                    self.ty(*t);
                    v.push(json!({"ty": ty_id(*t)}));
                }
                GenericArgKind::Const(c) => v.push(json!({"const": c.eval_target_usize().ok()})),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        json!(v)
    }
    fn alloc_id(&mut self, id: AllocId) {
        let n = serde_json::to_value(id).unwrap().as_u64().unwrap() as usize;
        if !self.alloc_seen.insert(n) {
            return;
        }
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
            GlobalAlloc::VTable(t, _) => {
                self.ty(t);
                json!({"vtable": ty_id(t)})
            }
            GlobalAlloc::Static(s) => self.static_def(s),
            GlobalAlloc::Memory(a) => {
                self.alloc(&a);
                json!({"mem": val(&a)})
            }
            GlobalAlloc::TypeId { ty } => json!({"typeid": ty_id(ty)}),
        };
        self.allocs.insert(n, v);
    }
    fn static_def(&mut self, s: StaticDef) -> Value {
        self.ty(s.ty());
        let init = match s.eval_initializer() {
            Ok(a) => {
                self.alloc(&a);
                val(&a)
            }
            Err(_) => Value::Null,
        };
        json!({"static": s.name(), "ty": ty_id(s.ty()), "init": init})
    }
    fn alloc(&mut self, a: &Allocation) {
        for (_, p) in &a.provenance.ptrs {
            self.alloc_id(p.0);
        }
    }
    fn emit_ty(&mut self, t: Ty) {
        let id = ty_id(t);
        let mut m = Map::new();
        m.insert("s".into(), json!(t.to_string()));
        if let Ok(l) = t.layout() {
            m.insert("layout".into(), val(&l.shape()));
        }
        let k = t.kind();
        if let TyKind::RigidTy(r) = &k {
            match r {
                RigidTy::Bool => { m.insert("k".into(), json!("bool")); }
                RigidTy::Char => { m.insert("k".into(), json!("char")); }
                RigidTy::Int(i) => { m.insert("k".into(), json!("int")); m.insert("bits".into(), json!(i.num_bytes() * 8)); }
                RigidTy::Uint(i) => { m.insert("k".into(), json!("uint")); m.insert("bits".into(), json!(i.num_bytes() * 8)); }
                RigidTy::Float(_) => { m.insert("k".into(), json!("float")); }
                RigidTy::Str => { m.insert("k".into(), json!("str")); }
                RigidTy::Never => { m.insert("k".into(), json!("never")); }
                RigidTy::Array(e, n) => {
                    self.ty(*e);
                    m.insert("k".into(), json!("array"));
                    m.insert("elem".into(), json!(ty_id(*e)));
                    m.insert("len".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(e) => {
                    self.ty(*e);
                    m.insert("k".into(), json!("slice"));
                    m.insert("elem".into(), json!(ty_id(*e)));
                }
                RigidTy::RawPtr(e, _) => {
                    self.ty(*e);
                    m.insert("k".into(), json!("ptr"));
                    m.insert("elem".into(), json!(ty_id(*e)));
                }
                RigidTy::Ref(_, e, mu) => {
                    self.ty(*e);
                    m.insert("k".into(), json!("ref"));
                    m.insert("mut".into(), json!(*mu == Mutability::Mut));
                    m.insert("elem".into(), json!(ty_id(*e)));
                }
                RigidTy::Tuple(v) => {
                    for e in v { self.ty(*e); }
                    m.insert("k".into(), json!("tuple"));
                    m.insert("fields".into(), json!(v.iter().map(|e| ty_id(*e)).collect::<Vec<_>>()));
                }
                RigidTy::FnPtr(_) => { m.insert("k".into(), json!("fnptr")); }
                RigidTy::Dynamic(..) => { m.insert("k".into(), json!("dyn")); }
                RigidTy::Closure(d, a) => {
                    m.insert("k".into(), json!("closure"));
                    m.insert("name".into(), json!(d.name()));
                    // upvar types: last generic arg is the tupled upvars
                    if let Some(GenericArgKind::Type(u)) = a.0.last() {
                        self.ty(*u);
                        m.insert("upvars".into(), json!(ty_id(*u)));
                    }
                }
                RigidTy::FnDef(d, a) => {
                    m.insert("k".into(), json!("fndef"));
                    m.insert("name".into(), json!(d.name()));
                    let av = self.args(a);
                    m.insert("args".into(), av);
                    match Instance::resolve(*d, a) {
                        Ok(i) => {
                            if let InstanceKind::Virtual { .. } = i.kind {
                                m.insert("virtual".into(), json!(true));
                                self.virtuals.push((id, *d, a.clone()));
                            } else {
                                let n = self.inst(i);
                                m.insert("inst".into(), json!(n));
                            }
                        }
                        Err(e) => { m.insert("err".into(), json!(format!("{:?}", e))); }
                    }
                }
                RigidTy::Adt(d, a) => {
                    m.insert("k".into(), json!("adt"));
                    m.insert("name".into(), json!(d.name()));
                    m.insert("adt".into(), json!(format!("{:?}", d.kind()).to_lowercase()));
                    m.insert("box".into(), json!(d.is_box()));
                    let av = self.args(a);
                    m.insert("args".into(), av);
                    let mut vs = vec![];
                    for v in d.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            self.ty(ft);
                            fs.push(json!([f.name.to_string(), ty_id(ft)]));
                        }
                        let discr = if d.kind() == AdtKind::Enum {
                            let x = d.discriminant_for_variant(v.idx());
                            json!(x.val.to_string())
                        } else { Value::Null };
                        vs.push(json!({"name": v.name(), "discr": discr, "fields": fs}));
                    }
                    m.insert("variants".into(), json!(vs));
                    if d.kind() == AdtKind::Enum {
                        let dt = r.discriminant_ty();
                        self.ty(dt);
                        m.insert("discr_ty".into(), json!(ty_id(dt)));
                    }
                }
                _ => { m.insert("k".into(), json!("other")); }
            }
        } else {
            m.insert("k".into(), json!("nonrigid"));
        }
        self.types.insert(id, Value::Object(m));
    }
    fn emit_fn(&mut self, i: Instance, n: usize) {
        let mut m = Map::new();
        m.insert("name".into(), json!(i.name()));
        m.insert("kind".into(), json!(format!("{:?}", i.kind)));
        m.insert("def".into(), json!(i.def.name()));
        m.insert("crate".into(), json!(i.def.krate().name));
        self.ty(i.ty());
        m.insert("ty".into(), json!(ty_id(i.ty())));
        let a = self.args(&i.args());
        m.insert("args".into(), a);
        if let Some(s) = i.intrinsic_name() {
            m.insert("intrinsic".into(), json!(s));
        }
        m.insert("empty_shim".into(), json!(i.is_empty_shim()));
        m.insert("drop_shim".into(), json!(i.name().contains("drop_in_place")));
        // a Fn or FnMut closure called by value: the shim has no MIR of its own
        if i.kind == InstanceKind::Shim && i.name().ends_with("::call_once") {
            if let Some(GenericArgKind::Type(t)) = i.args().0.first() {
                if let TyKind::RigidTy(RigidTy::Closure(d, a)) = t.kind() {
                    let k = a.0.len().checked_sub(3).map(|k| a.0[k].clone());
                    let kind = match k {
                        Some(GenericArgKind::Type(k)) => match k.kind() {
                            TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => Some(ClosureKind::Fn),
                            TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => Some(ClosureKind::FnMut),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(kind) = kind {
                        if let Ok(c) = Instance::resolve_closure(d, &a, kind) {
                            let x = self.inst(c);
                            m.insert("closure".into(), json!(x));
                        }
                    }
                }
            }
        }
        // closures handed to a library function that has no MIR here
        if i.kind == InstanceKind::Item && (!i.has_body() || i.name().starts_with("std::thread::")) {
            let mut cs = vec![];
            for g in i.args().0.iter() {
                if let GenericArgKind::Type(t) = g {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = t.kind() {
                        if let Ok(c) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            let x = self.inst(c);
                            cs.push(json!(x));
                        }
                    }
                }
            }
            m.insert("closures".into(), json!(cs));
        }
        let skip = i.name().contains("drop_in_place");
        if !skip && i.kind != InstanceKind::Intrinsic && i.has_body() {
            if let Some(b) = i.body() {
                let mut c = Collect { d: self, locals: b.locals().to_vec() };
                c.visit_body(&b);
                for l in b.locals() {
                    self.ty(l.ty);
                }
                self.span(b.span);
                m.insert("body".into(), val(&b));
            }
        }
        self.fns.insert(n, Value::Object(m));
    }
    fn drain(&mut self) {
        loop {
            while let Some((i, n)) = self.inst_queue.pop_front() {
                self.emit_fn(i, n);
            }
            while let Some(t) = self.ty_queue.pop_front() {
                self.emit_ty(t);
            }
            if self.inst_queue.is_empty() && self.ty_queue.is_empty() {
                break;
            }
        }
    }
}

struct Collect<'a> {
    d: &'a mut Dump,
    locals: Vec<LocalDecl>,
}
impl<'a> MirVisitor for Collect<'a> {
    fn visit_ty(&mut self, t: &Ty, _: Location) {
        self.d.ty(*t);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.d.span(c.span);
        self.d.ty(c.const_.ty());
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            self.d.alloc(a);
        }
        if let ConstantKind::Unevaluated(..) = c.const_.kind() {
            eprintln!("mirdump: unevaluated const {:?}", c);
        }
        self.super_const_operand(c, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, to) = r {
            if let Ok(from) = op.ty(&self.locals) {
                self.d.ty(from);
                self.d.dyn_srcs.insert((from, *to));
            }
        }
        if let Rvalue::ThreadLocalRef(_) = r {}
        self.super_rvalue(r, l);
    }
    fn visit_place(&mut self, p: &Place, c: visit::PlaceContext, l: Location) {
        if let Ok(t) = p.ty(&self.locals) {
            self.d.ty(t);
        }
        self.super_place(p, c, l);
    }
    fn visit_span(&mut self, s: &Span) {
        self.d.span(*s);
    }
}

fn pointee(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            // Box/NonNull/Unique/Rc/Arc...: first type argument
            let _ = d;
            a.0.iter().find_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None })
        }
        _ => None,
    }
}

fn cb() -> ControlFlow<(), ()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let krate = local_crate().name.to_string();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or("carron".into());
    if krate != want {
        return ControlFlow::Continue(());
    }
    let mut d = Dump::default();
    let mut roots = vec![];
    let mut generic = vec![];
    let mut statics = vec![];
    let mut items = all_local_items();
    items.sort_by_key(|i| i.name().to_string());
    for it in items {
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(it.name().to_string());
                } else if let Ok(i) = Instance::try_from(it) {
                    let n = d.inst(i);
                    roots.push(json!([n, it.name()]));
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) {
                    let v = d.static_def(s);
                    statics.push(v);
                }
            }
            _ => {}
        }
    }
    d.drain();
    // resolve virtual calls for every concrete type that was unsized to a trait object
    let mut vt: Vec<Value> = vec![];
    let mut done: HashSet<(usize, Ty)> = HashSet::new();
    loop {
        let srcs: Vec<(Ty, Ty)> = d.dyn_srcs.iter().cloned().collect();
        let virts = d.virtuals.clone();
        let mut progressed = false;
        for (from, to) in &srcs {
            let (Some(f), Some(t)) = (pointee(*from), pointee(*to)) else { continue };
            if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { continue; }
            for (id, def, args) in &virts {
                let Some(GenericArgKind::Type(self_ty)) = args.0.first().cloned() else { continue };
                // compare the dyn types modulo regions by their printed form
                if strip(&self_ty.to_string()) != strip(&t.to_string()) { continue; }
                if !done.insert((*id, f)) { continue; }
                let mut a = args.clone();
                a.0[0] = GenericArgKind::Type(f);
                if let Ok(i) = Instance::resolve(*def, &a) {
                    let n = d.inst(i);
                    d.ty(f);
                    vt.push(json!([id, ty_id(f), n]));
                    progressed = true;
                }
            }
        }
        d.drain();
        if !progressed { break; }
    }
    // adts, in case a struct is mentioned nowhere in MIR
    let is_bin = entry_fn().is_some();
    let v = json!({
        "crate": krate, "bin": is_bin, "roots": roots, "generic": generic, "statics": statics,
        "types": d.types, "fns": d.fns, "allocs": d.allocs, "spans": d.spans, "vtables": vt,
    });
    let path = format!("{}/{}.json", out, if is_bin { "bin" } else { "lib" });
    std::fs::write(&path, serde_json::to_vec(&v).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn strip(s: &str) -> String {
    // drop lifetimes from the printed type
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while let Some(n) = it.peek() {
                if n.is_alphanumeric() || *n == '_' { it.next(); } else { break; }
            }
        } else if !c.is_whitespace() && c != '+' {
            o.push(c);
        }
    }
    o
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut rustc = String::from("rustc");
    if args.len() > 1 && args[1].ends_with("rustc") {
        rustc = args.remove(1);
    }
    let wanted = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("MIRDUMP_CRATE").unwrap_or("carron".into()))
        && std::env::var("MIRDUMP_OUT").is_ok();
    if wanted {
        let r = run!(&args, cb);
        match r {
            Ok(_) | Err(CompilerError::Skipped) | Err(CompilerError::Interrupted(_)) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        // not the crate of interest: the ordinary compiler
        let st = std::process::Command::new(&rustc).args(&args[1..]).status();
        std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(1));
    }
}
