//! rxv-mir: dumps the MIR of every function and closure of one crate as JSON.
//! It is an ordinary rustc driver: it is called with rustc's own arguments, and
//! writes the file named by RXV_OUT after analysis, then stops the compilation.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate serde_json;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, TyCtxt, TypingEnv};
use serde_json::{json, Value};

struct Cb;

fn ty_str<'tcx>(t: ty::Ty<'tcx>) -> String {
  ty::print::with_no_trimmed_paths!(format!("{}", t))
}

fn ty_json<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, depth: u32) -> Value {
  if depth == 0 {
    return json!({"k": "deep"});
  }
  match t.kind() {
    ty::Bool => json!({"k": "bool"}),
    ty::Char => json!({"k": "char"}),
    ty::Int(i) => json!({"k": "int", "n": i.name_str()}),
    ty::Uint(i) => json!({"k": "uint", "n": i.name_str()}),
    ty::Float(f) => json!({"k": "float", "n": f.name_str()}),
    ty::Str => json!({"k": "str"}),
    ty::Never => json!({"k": "never"}),
    ty::Param(p) => json!({"k": "param", "n": p.name.to_string()}),
    ty::Adt(d, args) => {
      let a: Vec<Value> = args.types().map(|x| ty_json(tcx, x, depth - 1)).collect();
      json!({"k": "adt", "p": path(tcx, d.did()), "a": a})
    }
    ty::Ref(_, x, m) => json!({"k": "ref", "m": m.is_mut(), "t": ty_json(tcx, *x, depth - 1)}),
    ty::RawPtr(x, m) => json!({"k": "ptr", "m": m.is_mut(), "t": ty_json(tcx, *x, depth - 1)}),
    ty::Tuple(ts) => {
      let a: Vec<Value> = ts.iter().map(|x| ty_json(tcx, x, depth - 1)).collect();
      json!({"k": "tuple", "a": a})
    }
    ty::Closure(d, _) => json!({"k": "closure", "p": path(tcx, *d)}),
    ty::FnDef(d, args) => {
      let args = args.skip_binder();
      let a: Vec<Value> = args.types().map(|x| ty_json(tcx, x, depth - 1)).collect();
      json!({"k": "fndef", "p": path(tcx, *d), "a": a})
    }
    ty::FnPtr(..) => json!({"k": "fnptr"}),
    ty::Dynamic(..) => json!({"k": "dyn", "s": ty_str(t)}),
    ty::Slice(x) => json!({"k": "slice", "t": ty_json(tcx, *x, depth - 1)}),
    ty::Array(x, _) => json!({"k": "array", "t": ty_json(tcx, *x, depth - 1)}),
    _ => json!({"k": "other", "s": ty_str(t)}),
  }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
  let p = ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
  if d.is_local() && matches!(tcx.def_kind(d), DefKind::Closure) {
    // closures print as `{closure#n}`; make them unique with the index
    return format!("{}#c{}", p, d.index.as_u32());
  }
  p
}

struct Dump<'tcx> {
  tcx: TyCtxt<'tcx>,
  env: TypingEnv<'tcx>,
  owner: DefId,
}

impl<'tcx> Dump<'tcx> {
  fn place(&self, p: &Place<'tcx>) -> Value {
    let mut pr = vec![];
    for e in p.projection.iter() {
      pr.push(match e {
        ProjectionElem::Deref => json!("*"),
        ProjectionElem::Field(f, t) => json!({"f": f.as_u32(), "t": ty_json(self.tcx, t, 3)}),
        ProjectionElem::Downcast(n, v) => {
          json!({"dc": v.as_u32(), "n": n.map(|s| s.to_string())})
        }
        ProjectionElem::Index(l) => json!({"ix": l.as_u32()}),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          json!({"ci": offset, "ml": min_length, "fe": from_end})
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          json!({"ss": [from, to], "fe": from_end})
        }
        _ => json!({"op": 1}),
      });
    }
    json!({"l": p.local.as_u32(), "p": pr})
  }

  fn fn_ref(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> Value {
    let tcx = self.tcx;
    let targs: Vec<Value> = args.types().map(|t| ty_json(tcx, t, 5)).collect();
    let mut o = json!({"path": path(tcx, def), "targs": targs, "local": def.is_local()});
    if let Some(tr) = tcx.trait_of_assoc(def) {
      o["trait"] = json!(path(tcx, tr));
      o["name"] = json!(tcx.item_name(def).to_string());
    } else if matches!(tcx.def_kind(def), DefKind::AssocFn) {
      o["name"] = json!(tcx.item_name(def).to_string());
    }
    if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
      let args = tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, def, args) {
        let rd = inst.def_id();
        o["res"] = json!({"path": path(tcx, rd), "local": rd.is_local(),
          "kind": format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string()});
      }
    }
    o
  }

  fn konst(&self, c: &ConstOperand<'tcx>) -> Value {
    let tcx = self.tcx;
    let t = c.const_.ty();
    if let ty::FnDef(d, args) = t.kind() {
      return json!({"c": "fn", "fn": self.fn_ref(*d, args.skip_binder())});
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        return json!({"c": "promoted", "of": path(tcx, u.def), "i": p.as_u32(), "ty": ty_json(tcx, t, 4)});
      }
    }
    if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
      let v: Value = match t.kind() {
        ty::Bool => json!(s.try_to_bool().unwrap_or(false)),
        ty::Int(_) => json!(s.to_int(s.size()).to_string()),
        _ => json!(s.to_uint(s.size()).to_string()),
      };
      return json!({"c": "int", "v": v, "ty": ty_json(tcx, t, 4)});
    }
    json!({"c": "other", "s": ty::print::with_no_trimmed_paths!(format!("{}", c.const_)), "ty": ty_json(tcx, t, 4)})
  }

  fn op(&self, o: &Operand<'tcx>) -> Value {
    match o {
      Operand::Copy(p) => json!({"o": "copy", "p": self.place(p)}),
      Operand::Move(p) => json!({"o": "move", "p": self.place(p)}),
      Operand::Constant(c) => json!({"o": "const", "k": self.konst(c)}),
      _ => json!({"o": "const", "k": {"c": "int", "v": false, "ty": {"k": "bool"}}}),
    }
  }

  fn rv(&self, r: &Rvalue<'tcx>) -> Value {
    let tcx = self.tcx;
    match r {
      Rvalue::Use(o, _) => json!({"r": "use", "o": self.op(o)}),
      Rvalue::Repeat(o, _) => json!({"r": "repeat", "o": self.op(o)}),
      Rvalue::Ref(_, bk, p) => {
        json!({"r": "ref", "m": matches!(bk, BorrowKind::Mut{..}), "p": self.place(p)})
      }
      Rvalue::RawPtr(_, p) => json!({"r": "ref", "raw": true, "p": self.place(p)}),
      Rvalue::Cast(k, o, t) => {
        json!({"r": "cast", "k": format!("{:?}", k), "o": self.op(o), "t": ty_json(tcx, *t, 5)})
      }
      Rvalue::BinaryOp(b, ops) => {
        json!({"r": "bin", "op": format!("{:?}", b), "a": self.op(&ops.0), "b": self.op(&ops.1)})
      }
      Rvalue::UnaryOp(u, o) => json!({"r": "un", "op": format!("{:?}", u), "a": self.op(o)}),
      Rvalue::Discriminant(p) => json!({"r": "disc", "p": self.place(p)}),
      Rvalue::Aggregate(k, ops) => {
        let a: Vec<Value> = ops.iter().map(|o| self.op(o)).collect();
        let kk = match &**k {
          AggregateKind::Array(_) => json!({"k": "array"}),
          AggregateKind::Tuple => json!({"k": "tuple"}),
          AggregateKind::Adt(d, v, _, _, _) => {
            let def = tcx.adt_def(*d);
            json!({"k": "adt", "p": path(tcx, *d), "v": v.as_u32(),
              "vn": def.variant(*v).name.to_string(), "enum": def.is_enum()})
          }
          AggregateKind::Closure(d, _) => json!({"k": "closure", "p": path(tcx, *d)}),
          _ => json!({"k": "other"}),
        };
        json!({"r": "agg", "k": kk, "a": a})
      }
      Rvalue::CopyForDeref(p) => json!({"r": "use", "o": {"o": "copy", "p": self.place(p)}}),
      _ => json!({"r": "unsupported", "s": format!("{:?}", r)}),
    }
  }

  fn line(&self, s: rustc_span::Span) -> String {
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.source_callsite().lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
  }

  fn body(&self, b: &Body<'tcx>) -> Value {
    let tcx = self.tcx;
    let locals: Vec<Value> = b.local_decls.iter().map(|d| ty_json(tcx, d.ty, 6)).collect();
    let mut names = serde_json::Map::new();
    for v in &b.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          names.insert(p.local.as_u32().to_string(), json!(v.name.to_string()));
        }
      }
    }
    let mut blocks = vec![];
    for (_, bb) in b.basic_blocks.iter_enumerated() {
      let mut st = vec![];
      for s in &bb.statements {
        match &s.kind {
          StatementKind::Assign(a) => {
            st.push(json!({"s": "=", "p": self.place(&a.0), "v": self.rv(&a.1)}))
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            st.push(json!({"s": "sd", "p": self.place(place), "v": variant_index.as_u32()}))
          }
          StatementKind::StorageDead(l) => st.push(json!({"s": "dead", "l": l.as_u32()})),
          _ => {}
        }
      }
      let t = bb.terminator();
      let span = self.line(t.source_info.span);
      let mut tj = match &t.kind {
        TerminatorKind::Goto { target, .. } => json!({"t": "goto", "b": target.as_u32()}),
        TerminatorKind::SwitchInt { discr, targets } => {
          let v: Vec<Value> =
            targets.iter().map(|(v, b)| json!([v.to_string(), b.as_u32()])).collect();
          json!({"t": "switch", "o": self.op(discr), "v": v, "else": targets.otherwise().as_u32(),
            "ty": ty_json(tcx, discr.ty(&b.local_decls, tcx), 2)})
        }
        TerminatorKind::Return => json!({"t": "return"}),
        TerminatorKind::Unreachable => json!({"t": "unreachable"}),
        TerminatorKind::Drop { place, target, .. } => {
          json!({"t": "drop", "p": self.place(place), "b": target.as_u32(),
             "ty": ty_json(tcx, place.ty(&b.local_decls, tcx).ty, 4)})
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let a: Vec<Value> = args.iter().map(|x| self.op(&x.node)).collect();
          json!({"t": "call", "f": self.op(func), "a": a, "d": self.place(destination),
            "b": target.map(|b| b.as_u32()),
            "dty": ty_json(tcx, destination.ty(&b.local_decls, tcx).ty, 5)})
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let m = match &**msg {
            AssertKind::Overflow(..) => "overflow",
            AssertKind::BoundsCheck { .. } => "bounds",
            _ => "other",
          };
          json!({"t": "assert", "o": self.op(cond), "e": expected, "m": m, "b": target.as_u32()})
        }
        TerminatorKind::FalseEdge { real_target, .. }
        | TerminatorKind::FalseUnwind { real_target, .. } => {
          json!({"t": "goto", "b": real_target.as_u32()})
        }
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => json!({"t": "unwind"}),
        _ => json!({"t": "unsupported"}),
      };
      tj["ln"] = json!(span);
      let cleanup = bb.is_cleanup;
      blocks.push(json!({"st": st, "t": tj, "cl": cleanup}));
    }
    json!({"args": b.arg_count, "locals": locals, "names": names, "blocks": blocks,
      "span": self.line(b.span), "spread": b.spread_arg.map(|l| l.as_u32())})
  }
}

impl rustc_driver::Callbacks for Cb {
  fn after_analysis<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> Compilation {
    let mut fns = serde_json::Map::new();
    let mut adts = serde_json::Map::new();
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
      let d = id.to_def_id();
      match tcx.def_kind(d) {
        DefKind::Struct | DefKind::Enum => {
          let def = tcx.adt_def(d);
          let vs: Vec<Value> = def
            .variants()
            .iter()
            .map(|v| {
              let fs: Vec<Value> = v
                .fields
                .iter()
                .map(|f| json!([f.name.to_string(),
                   ty_json(tcx, tcx.type_of(f.did).skip_binder(), 8),
                   format!("{:?}", f.vis)]))
                .collect();
              json!({"n": v.name.to_string(), "f": fs})
            })
            .collect();
          let sm = tcx.sess.source_map();
          let lo = sm.lookup_char_pos(tcx.def_span(d).lo());
          let span = format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line);
          adts.insert(path(tcx, d), json!({"enum": def.is_enum(), "v": vs, "span": span}));
        }
        DefKind::Impl { .. } => {
          let mut ms = vec![];
          for it in tcx.associated_item_def_ids(d) {
            if matches!(tcx.def_kind(*it), DefKind::AssocFn) {
              ms.push(json!([tcx.item_name(*it).to_string(), path(tcx, *it)]));
            }
          }
          let tr = tcx.impl_opt_trait_ref(d).map(|t| path(tcx, t.skip_binder().def_id));
          let st = tcx.type_of(d).skip_binder();
          impls.push(json!({"self": ty_json(tcx, st, 4), "trait": tr, "m": ms}));
        }
        _ => {}
      }
    }
    for id in tcx.hir_body_owners() {
      let d = id.to_def_id();
      let k = tcx.def_kind(d);
      if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        continue;
      }
      if tcx.is_coroutine(d) {
        continue;
      }
      let dump = Dump { tcx, env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d)), owner: d };
      let _ = dump.owner;
      let b = tcx.optimized_mir(d);
      let mut j = dump.body(b);
      let pm = tcx.promoted_mir(d);
      let ps: Vec<Value> = pm.iter().map(|b| dump.body(b)).collect();
      j["promoted"] = json!(ps);
      j["kind"] = json!(format!("{:?}", k));
      if matches!(k, DefKind::Closure) {
        j["parent"] = json!(path(tcx, tcx.parent(d)));
        if let ty::Closure(_, a) = tcx.type_of(d).skip_binder().kind() {
          j["ckind"] = json!(format!("{:?}", a.as_closure().kind()));
        }
        let caps: Vec<Value> = tcx
          .closure_captures(id)
          .iter()
          .map(|c| json!([c.to_string(tcx), format!("{:?}", c.info.capture_kind)]))
          .collect();
        j["caps"] = json!(caps);
      }
      fns.insert(path(tcx, d), j);
    }
    let out = json!({"fns": fns, "adts": adts, "impls": impls});
    let f = std::env::var("RXV_OUT").expect("RXV_OUT");
    std::fs::write(f, serde_json::to_vec(&out).unwrap()).unwrap();
    Compilation::Stop
  }
}

fn main() {
  let mut args: Vec<String> = std::env::args().collect();
  // argv[0] is this program; rustc's own arguments follow
  args.extend(
    ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=off", "-Coverflow-checks=off", "-Zalways-encode-mir"]
      .iter()
      .map(|s| s.to_string()),
  );
  rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
