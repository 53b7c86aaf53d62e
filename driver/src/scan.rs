//! Effects of the functions of dmidecode: what they call outside the crate, which statics they name, and which
//! casts could turn shared memory into writable memory.  One JSON line per function, all bodies as written
//! (generic, not only those reachable from an entry).
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeSet, HashSet};
use std::io::Write;

struct V<'a> {
    locals: &'a [LocalDecl],
    calls: BTreeSet<(String, String, usize)>,
    marks: BTreeSet<(String, String, usize)>,
    closures: Vec<ClosureDef>,
}
fn line(s: &Span) -> usize {
    s.get_lines().start_line
}
fn is_mut_ptr(t: Ty) -> Option<bool> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::RawPtr(_, m)) | TyKind::RigidTy(RigidTy::Ref(_, _, m)) => Some(m == Mutability::Mut),
        _ => None,
    }
}
/// Does a value of this type contain an UnsafeCell (looked at through fields, not through references)?
pub fn has_cell(t: Ty, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, g)) => {
            d.name().ends_with("UnsafeCell") || d.variants().iter().any(|v| v.fields().iter().any(|f| has_cell(f.ty_with_args(&g), depth - 1)))
        }
        TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => has_cell(e, depth - 1),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => ts.into_iter().any(|e| has_cell(e, depth - 1)),
        _ => false,
    }
}
impl V<'_> {
    fn callee(&mut self, t: Ty, l: usize) {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, g)) => {
                let n = d.name().to_string();
                let ptr = |g: &GenericArgs| matches!(g.0.first(), Some(GenericArgKind::Type(t)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::FnPtr(..))));
                if n.ends_with("Hash::hash") && ptr(&g) || n == "core::ptr::hash" {
                    self.marks.insert(("pointer-hash".into(), n.clone(), l));
                }
                self.calls.insert((d.krate().name, d.name().to_string(), l));
            }
            TyKind::RigidTy(RigidTy::Closure(d, _)) => self.closures.push(d),
            _ => {}
        }
    }
}
impl MirVisitor for V<'_> {
    fn visit_terminator(&mut self, t: &Terminator, loc: Location) {
        let l = line(&t.source_info.span);
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.marks.insert(("asm".into(), String::new(), l));
        }
        self.super_terminator(t, loc)
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, loc: Location) {
        let l = line(&c.span);
        self.callee(c.const_.ty(), l);
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(s) = GlobalAlloc::from(p.0) {
                    let m = is_mut_ptr(c.const_.ty()) == Some(true);
                    let what = if m { "static-mut" } else if has_cell(s.ty(), 8) { "static-cell" } else { "static" };
                    self.marks.insert((what.into(), s.name().to_string(), l));
                }
            }
        }
        self.super_const_operand(c, loc)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, loc: Location) {
        let l = line(&loc.span());
        match r {
            Rvalue::ThreadLocalRef(d) => {
                self.marks.insert(("thread-local".into(), d.name().to_string(), l));
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(self.locals).ok();
                match k {
                    CastKind::PointerExposeAddress => {
                        self.marks.insert(("address".into(), String::new(), l));
                    }
                    CastKind::PtrToPtr | CastKind::Transmute => {
                        if from.and_then(is_mut_ptr) == Some(false) && is_mut_ptr(*t) == Some(true) {
                            self.marks.insert(("const-to-mut".into(), String::new(), l));
                        }
                    }
                    _ => {}
                }
            }
            Rvalue::Aggregate(AggregateKind::Closure(d, _), _) => self.closures.push(*d),
            _ => {}
        }
        self.super_rvalue(r, loc)
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn run(out: &str) {
    let mut f = std::fs::File::create(out).expect("output");
    for k in rustc_public::find_crates("dmidecode") {
        for s in k.statics() {
            writeln!(f, "{{\"static\":{},\"cell\":{},\"file\":{},\"line\":{}}}", js(&s.name().to_string()), has_cell(s.ty(), 8), js(&s.span().get_filename()), line(&s.span())).unwrap();
        }
        let mut todo: Vec<(String, Option<Body>, Span)> = k.fn_defs().into_iter().map(|d| (d.name().to_string(), d.body(), d.span())).collect();
        let mut seen: HashSet<String> = HashSet::new();
        while let Some((n, b, sp)) = todo.pop() {
            let Some(b) = b else {
                writeln!(f, "{{\"fn\":{},\"body\":null}}", js(&n)).unwrap();
                continue;
            };
            let mut v = V { locals: b.locals(), calls: Default::default(), marks: Default::default(), closures: vec![] };
            v.visit_body(&b);
            let (calls, marks, closures) = (v.calls, v.marks, v.closures);
            for c in closures {
                let key = format!("{n}{:?}", c.span().get_lines());
                if seen.insert(key) {
                    todo.push((format!("{n}::closure@{}", line(&c.span())), c.body(), c.span()));
                }
            }
            let mut t = vec![];
            let _ = b.dump(&mut t, &n);
            let t = String::from_utf8_lossy(&t).to_string();
            let mut h: u64 = 0xcbf29ce484222325;
            for x in t.bytes() {
                h = (h ^ x as u64).wrapping_mul(0x100000001b3);
            }
            let set = |s: &BTreeSet<(String, String, usize)>| s.iter().map(|(a, b, l)| format!("[{},{},{l}]", js(a), js(b))).collect::<Vec<_>>().join(",");
            writeln!(f, "{{\"fn\":{},\"body\":\"{h:x}\",\"file\":{},\"line\":{},\"calls\":[{}],\"marks\":[{}]}}", js(&n), js(&sp.get_filename()), line(&sp), set(&calls), set(&marks)).unwrap();
        }
    }
}
