// MIR exporter.  Runs as a rustc wrapper for the harness crate only; after rustc's own analysis it
// walks every function reachable from the contract functions (`vc_*`) of that crate and writes their
// monomorphic MIR (rustc's own `instance_mir`, the text the compiler would generate code from) as JSON.
// It drops: cleanup (unwind) blocks, storage markers, debug info beyond local names.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;
impl rustc_driver::Callbacks for Cb {
	fn after_analysis<'tcx>(
		&mut self,
		_c: &rustc_interface::interface::Compiler,
		tcx: TyCtxt<'tcx>,
	) -> rustc_driver::Compilation {
		dump(tcx);
		rustc_driver::Compilation::Continue
	}
}

fn main() {
	let mut args: Vec<String> = std::env::args().collect();
	// RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
	if args.len() > 1 && args[1].ends_with("rustc") {
		args.remove(1);
	}
	let krate = std::env::var("VDRIVER_CRATE").unwrap_or("vharness".into());
	let is = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && *b == krate);
	struct Nop;
	impl rustc_driver::Callbacks for Nop {}
	let code = rustc_driver::catch_with_exit_code(move || {
		if is {
			rustc_driver::compiler_entrypoint(&args, &mut Cb)
		} else {
			rustc_driver::compiler_entrypoint(&args, &mut Nop)
		}
	});
	let _ = code;
	std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

fn js(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			},
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
	format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Cfg {
	prims: Vec<String>,
	models: HashMap<String, String>,
}
fn load_cfg() -> Cfg {
	let p = std::env::var("VDRIVER_CFG").expect("VDRIVER_CFG");
	let mut c = Cfg { prims: vec![], models: HashMap::new() };
	for l in std::fs::read_to_string(p).unwrap().lines() {
		let l = l.trim();
		if l.is_empty() || l.starts_with('#') {
			continue;
		}
		if let Some(r) = l.strip_prefix("prim ") {
			c.prims.push(r.trim().to_string());
		} else if let Some(r) = l.strip_prefix("model ") {
			let (a, b) = r.rsplit_once(" => ").unwrap();
			c.models.insert(a.trim().to_string(), b.trim().to_string());
		} else {
			panic!("bad cfg line {l}");
		}
	}
	c
}
fn glob(p: &str, s: &str) -> bool {
	if let Some(pre) = p.strip_suffix('*') {
		s.starts_with(pre)
	} else {
		p == s
	}
}

struct D<'tcx> {
	tcx: TyCtxt<'tcx>,
	cfg: Cfg,
	model_defs: HashMap<String, rustc_span::def_id::DefId>,
	tys: HashMap<Ty<'tcx>, usize>,
	tyq: Vec<Ty<'tcx>>,
	fns: HashMap<Instance<'tcx>, usize>,
	fnq: Vec<Instance<'tcx>>,
}

fn env<'tcx>() -> TypingEnv<'tcx> {
	TypingEnv::fully_monomorphized()
}

impl<'tcx> D<'tcx> {
	fn path(&self, d: rustc_span::def_id::DefId) -> String {
		ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
	}
	fn ty(&mut self, t: Ty<'tcx>) -> usize {
		let t = self.tcx.erase_and_anonymize_regions(t);
		if let Some(i) = self.tys.get(&t) {
			return *i;
		}
		let i = self.tyq.len();
		self.tys.insert(t, i);
		self.tyq.push(t);
		i
	}
	fn func(&mut self, i: Instance<'tcx>) -> usize {
		if let Some(x) = self.fns.get(&i) {
			return *x;
		}
		let x = self.fnq.len();
		self.fns.insert(i, x);
		self.fnq.push(i);
		x
	}
	fn resolve(&mut self, d: rustc_span::def_id::DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
		// a model may be attached to a trait method or to the resolved item
		if let Some(x) = self.model(d, args) {
			return Some(x);
		}
		let i = Instance::try_resolve(self.tcx, env(), d, args).ok().flatten()?;
		if let InstanceKind::Item(d2) = i.def {
			if let Some(x) = self.model(d2, i.args) {
				return Some(x);
			}
		}
		Some(self.func(i))
	}
	fn model(&mut self, d: rustc_span::def_id::DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
		let p = self.path(d);
		let m = self.cfg.models.get(&p)?.clone();
		let md = *self.model_defs.get(&m).unwrap_or_else(|| panic!("model fn {m} not found"));
		let a: Vec<_> = args
			.iter()
			.filter(|a| !matches!(a.kind(), ty::GenericArgKind::Lifetime(_)))
			.collect();
		let need = self.tcx.generics_of(md).count();
		if need > a.len() {
			panic!("model {m} for {p}: wants {need} generics, has {}: {:?}", a.len(), a);
		}
		let a = self.tcx.mk_args(&a[..need]);
		let i = Instance::try_resolve(self.tcx, env(), md, a).ok().flatten()?;
		Some(self.func(i))
	}
	fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
		let mut v = vec![];
		for a in args.iter() {
			match a.kind() {
				ty::GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
				ty::GenericArgKind::Const(c) => v.push(match c.try_to_target_usize(self.tcx) {
					Some(n) => format!("[{n}]"),
					None => format!("[{}]", js(&format!("{c:?}"))),
				}),
				_ => {},
			}
		}
		arr(v)
	}
	fn ty_json(&mut self, t: Ty<'tcx>) -> String {
		use rustc_middle::ty::*;
		let disp = ty::print::with_no_trimmed_paths!(format!("{t}"));
		let body = match t.kind() {
			Bool => r#""k":"bool""#.into(),
			Char => r#""k":"char""#.into(),
			Int(i) => format!(r#""k":"int","s":1,"b":{}"#, i.bit_width().unwrap_or(64)),
			Uint(i) => format!(r#""k":"int","s":0,"b":{}"#, i.bit_width().unwrap_or(64)),
			Float(_) => r#""k":"float""#.into(),
			Str => r#""k":"str""#.into(),
			Never => r#""k":"never""#.into(),
			Array(e, n) => {
				let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
				format!(r#""k":"array","e":{},"len":{}"#, self.ty(*e), n)
			},
			Slice(e) => format!(r#""k":"slice","e":{}"#, self.ty(*e)),
			RawPtr(e, _) => format!(r#""k":"ptr","e":{}"#, self.ty(*e)),
			Ref(_, e, m) => format!(r#""k":"ref","e":{},"m":{}"#, self.ty(*e), m.is_mut() as u8),
			Tuple(ts) => {
				let f = arr(ts.iter().map(|x| self.ty(x).to_string()));
				format!(r#""k":"tuple","f":{f}"#)
			},
			FnDef(d, a) => {
				let p = self.path(*d);
				format!(r#""k":"fndef","p":{}"#, js(&p)) + &{
					let _ = a;
					String::new()
				}
			},
			FnPtr(..) => r#""k":"fnptr""#.into(),
			Closure(d, a) => {
				let p = self.path(*d);
				let ups = a.as_closure().upvar_tys();
				let f = arr(ups.iter().map(|x| self.ty(x).to_string()));
				let k = a.as_closure().kind();
				let call = Instance::resolve_closure(self.tcx, *d, a, k);
				let call = self.func(call);
				format!(r#""k":"closure","p":{},"f":{f},"ck":"{k:?}","call":{call}"#, js(&p))
			},
			Adt(def, args) => {
				let p = self.path(def.did());
				let ga = self.gargs(args);
				let kind = if def.is_enum() {
					"enum"
				} else if def.is_union() {
					"union"
				} else {
					"struct"
				};
				let mut vs = vec![];
				for (vi, v) in def.variants().iter_enumerated() {
					let d = if def.is_enum() {
						def.discriminant_for_variant(self.tcx, vi).val.to_string()
					} else {
						"0".into()
					};
					let mut f = vec![];
					let mut fnm = vec![];
					for fd in &v.fields {
						let ft = fd.ty(self.tcx, args);
						let ft = self
							.tcx
							.try_normalize_erasing_regions(env(), ft)
							.unwrap_or_else(|_| ft.skip_norm_wip());
						f.push(self.ty(ft).to_string());
						fnm.push(js(fd.name.as_str()));
					}
					vs.push(format!(
						r#"{{"n":{},"d":{},"f":{},"fn":{}}}"#,
						js(v.name.as_str()),
						d,
						arr(f),
						arr(fnm)
					));
				}
				format!(
					r#""k":"adt","p":{},"a":{ga},"kind":"{kind}","box":{},"v":{}"#,
					js(&p),
					def.is_box() as u8,
					arr(vs)
				)
			},
			Dynamic(..) => r#""k":"dyn""#.into(),
			_ => r#""k":"other""#.into(),
		};
		format!(r#"{{"n":{},{body}}}"#, js(&disp))
	}

	fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
		use rustc_middle::ty::*;
		if depth > 12 {
			return r#"["opaque"]"#.into();
		}
		match t.kind() {
			Bool | Char | Int(_) | Uint(_) => match v.try_to_scalar_int() {
				Some(s) => {
					let n = if t.is_signed() {
						s.to_int(s.size()).to_string()
					} else {
						s.to_bits_unchecked().to_string()
					};
					format!(r#"["i","{n}"]"#)
				},
				None => r#"["opaque"]"#.into(),
			},
			FnDef(d, a) => {
				let f = self.resolve(*d, a.skip_binder());
				match f {
					Some(f) => format!(r#"["fn",{f}]"#),
					None => format!(r#"["fnx",{}]"#, js(&self.path(*d))),
				}
			},
			Tuple(ts) if ts.is_empty() => r#"["agg",0,[]]"#.into(),
			Adt(..) | Tuple(_) | Array(..) => {
				if let Adt(d, _) = t.kind() {
					if d.is_union() {
						return r#"["opaque"]"#.into();
					}
				}
				match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
					Some(d) => {
						let var = d.variant.map(|x| x.as_usize()).unwrap_or(0);
						let fs: Vec<String> = d
							.fields
							.iter()
							.map(|(fv, ft)| {
								let c = self.const_val(*fv, *ft, depth + 1);
								let ti = self.ty(*ft);
								format!("[{c},{ti}]")
							})
							.collect();
						format!(r#"["agg",{var},{}]"#, arr(fs))
					},
					None => r#"["opaque"]"#.into(),
				}
			},
			Closure(..) => r#"["agg",0,[]]"#.into(),
			Ref(_, inner, _) | RawPtr(inner, _) => {
				match (v, inner.kind()) {
					(ConstValue::Slice { alloc_id, meta }, Str) => {
						let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
						let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
						format!(r#"["str",{}]"#, js(&String::from_utf8_lossy(b)))
					},
					(ConstValue::Slice { alloc_id, meta }, Slice(e)) if *e == self.tcx.types.u8 => {
						let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
						let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
						format!(r#"["bytes",{}]"#, arr(b.iter().map(|x| x.to_string())))
					},
					(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), k)
						if !matches!(k, Str | Slice(_) | Dynamic(..)) =>
					{
						let (prov, off) = p.prov_and_relative_offset();
						match self.tcx.try_get_global_alloc(prov.alloc_id()) {
							Some(GlobalAlloc::Memory(_)) => {
								let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
								let iv = self.norm_scalar(iv, *inner);
								let c = self.const_val(iv, *inner, depth + 1);
								let ti = self.ty(*inner);
								format!(r#"["ref",{c},{ti}]"#)
							},
							_ => r#"["opaque"]"#.into(),
						}
					},
					_ => r#"["opaque"]"#.into(),
				}
			},
			_ => r#"["opaque"]"#.into(),
		}
	}
	// read a scalar out of an Indirect constant
	fn norm_scalar(&mut self, v: ConstValue, t: Ty<'tcx>) -> ConstValue {
		use rustc_middle::ty::*;
		if let ConstValue::Indirect { alloc_id, offset } = v {
			if matches!(t.kind(), Bool | Char | Int(_) | Uint(_)) {
				let a = self.tcx.global_alloc(alloc_id).unwrap_memory().inner();
				let sz = self.tcx.layout_of(env().as_query_input(t)).unwrap().size;
				let r = interpret::alloc_range(offset, sz);
				if let Ok(s) = a.read_scalar(&self.tcx, r, false) {
					return ConstValue::Scalar(s);
				}
			}
			if let Ok(l) = self.tcx.layout_of(env().as_query_input(t)) {
				if l.is_zst() {
					return ConstValue::ZeroSized;
				}
			}
		}
		v
	}
	fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
		let t = c.const_.ty();
		let ti = self.ty(t);
		let s = match c.const_.eval(self.tcx, env(), c.span) {
			Ok(v) => self.const_val(v, t, 0),
			Err(_) => r#"["opaque"]"#.into(),
		};
		format!(r#"["k",{s},{ti}]"#)
	}
	fn place(&mut self, p: &Place<'tcx>) -> String {
		let pr = arr(p.projection.iter().map(|e| match e {
			ProjectionElem::Deref => r#"["*"]"#.to_string(),
			ProjectionElem::Field(i, t) => format!(r#"["f",{},{}]"#, i.as_usize(), self.ty(t)),
			ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
			ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
				format!(r#"["ci",{offset},{min_length},{}]"#, from_end as u8),
			ProjectionElem::Subslice { from, to, from_end } =>
				format!(r#"["ss",{from},{to},{}]"#, from_end as u8),
			ProjectionElem::Downcast(_, v) => format!(r#"["d",{}]"#, v.as_usize()),
			ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) | ProjectionElem::PhantomDeref => r#"["o"]"#.into(),
		}));
		format!("[{},{pr}]", p.local.as_usize())
	}
	fn op(&mut self, o: &Operand<'tcx>) -> String {
		match o {
			Operand::Copy(p) => format!(r#"["c",{}]"#, self.place(p)),
			Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p)),
			Operand::Constant(c) => self.konst(c),
			_ => r#"["rtc"]"#.into(),
		}
	}
	fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
		match r {
			Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.op(o)),
			Rvalue::Repeat(o, n) => {
				let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
				format!(r#"["rep",{},{n}]"#, self.op(o))
			},
			Rvalue::Ref(_, k, p) =>
				format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }) as u8, self.place(p)),
			Rvalue::RawPtr(_, p) => format!(r#"["ref",2,{}]"#, self.place(p)),
			Rvalue::ThreadLocalRef(_) => r#"["tls"]"#.into(),
			Rvalue::Cast(k, o, t) => {
				let from = o.ty(&body.local_decls, self.tcx);
				let fi = self.ty(from);
				let ti = self.ty(*t);
				let mut extra = "null".to_string();
				if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(_), _) = k {
					if let ty::FnDef(d, a) = from.kind() {
						if let Some(f) = self.resolve(*d, a.skip_binder()) {
							extra = f.to_string();
						}
					}
				}
				if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ClosureFnPointer(_), _) = k {
					if let ty::Closure(d, a) = from.kind() {
						let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
						extra = self.func(i).to_string();
					}
				}
				format!(r#"["cast",{},{},{fi},{ti},{extra}]"#, js(&format!("{k:?}")), self.op(o))
			},
			Rvalue::BinaryOp(b, ab) => {
				let t = ab.0.ty(&body.local_decls, self.tcx);
				let ti = self.ty(t);
				format!(
					r#"["bin",{},{},{},{ti}]"#,
					js(&format!("{b:?}")),
					self.op(&ab.0),
					self.op(&ab.1)
				)
			},
			Rvalue::UnaryOp(u, a) => {
				let t = a.ty(&body.local_decls, self.tcx);
				let ti = self.ty(t);
				format!(r#"["un",{},{},{ti}]"#, js(&format!("{u:?}")), self.op(a))
			},
			Rvalue::Discriminant(p) => {
				let t = p.ty(&body.local_decls, self.tcx).ty;
				let ti = self.ty(t);
				format!(r#"["disc",{},{ti}]"#, self.place(p))
			},
			Rvalue::Aggregate(k, fs) => {
				let f: Vec<String> = fs.iter().map(|x| self.op(x)).collect();
				let kk = match &**k {
					AggregateKind::Array(t) => format!(r#""array",{},0"#, self.ty(*t)),
					AggregateKind::Tuple => r#""tuple",-1,0"#.into(),
					AggregateKind::Adt(_, v, _, _, _) => {
						let t = r.ty(&body.local_decls, self.tcx);
						format!(r#""adt",{},{}"#, self.ty(t), v.as_usize())
					},
					AggregateKind::Closure(..) => {
						let t = r.ty(&body.local_decls, self.tcx);
						format!(r#""closure",{},0"#, self.ty(t))
					},
					AggregateKind::RawPtr(..) => r#""rawptr",-1,0"#.into(),
					_ => r#""other",-1,0"#.into(),
				};
				format!(r#"["agg",{kk},{}]"#, arr(f))
			},
			Rvalue::CopyForDeref(p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
			Rvalue::Reborrow(_, _, p) => format!(r#"["use",["c",{}]]"#, self.place(p)),
			_ => format!(r#"["unsupported",{}]"#, js(&format!("{r:?}"))),
		}
	}
	fn span(&self, s: rustc_span::Span) -> String {
		let s = s.source_callsite();
		let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
		let f = format!("{}", l.file.name.prefer_local_unconditionally());
		let f = f.rsplit("/repo/").next().unwrap_or("").to_string();
		format!("{}:{}", f, l.line)
	}
	fn body(&mut self, inst: Instance<'tcx>) -> String {
		let inst = match inst.def {
			InstanceKind::Intrinsic(d) => Instance { def: InstanceKind::Item(d), args: inst.args },
			_ => inst,
		};
		let b0 = self.tcx.instance_mir(inst.def);
		let b = inst.instantiate_mir_and_normalize_erasing_regions(
			self.tcx,
			env(),
			ty::EarlyBinder::bind(self.tcx, b0.clone()),
		);
		let locals = arr(b.local_decls.iter().map(|l| self.ty(l.ty).to_string()));
		let mut names = vec![];
		for v in &b.var_debug_info {
			if let VarDebugInfoContents::Place(p) = &v.value {
				if p.projection.is_empty() {
					names.push(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str())));
				}
			}
		}
		let spread = b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into());
		let mut blocks = vec![];
		for (_bi, bb) in b.basic_blocks.iter_enumerated() {
			if bb.is_cleanup {
				blocks.push("null".to_string());
				continue;
			}
			let mut ss = vec![];
			for s in &bb.statements {
				match &s.kind {
					StatementKind::Assign(x) => {
						let p = self.place(&x.0);
						let r = self.rvalue(&x.1, &b);
						ss.push(format!("[{p},{r}]"));
					},
					StatementKind::SetDiscriminant { place, variant_index } => {
						let p = self.place(place);
						ss.push(format!(r#"[{p},["setdisc",{}]]"#, variant_index.as_usize()));
					},
					StatementKind::Intrinsic(i) => match &**i {
						NonDivergingIntrinsic::Assume(_) => {},
						_ => ss.push(r#"[null,["unsupported","copy_nonoverlapping"]]"#.into()),
					},
					_ => {},
				}
			}
			let term = bb.terminator();
			let sp = self.span(term.source_info.span);
			let t = match &term.kind {
				TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
				TerminatorKind::SwitchInt { discr, targets } => {
					let t = discr.ty(&b.local_decls, self.tcx);
					let ti = self.ty(t);
					let ts = arr(targets.iter().map(|(v, t)| format!(r#"["{v}",{}]"#, t.as_usize())));
					format!(
						r#"["switch",{},{ti},{ts},{}]"#,
						self.op(discr),
						targets.otherwise().as_usize()
					)
				},
				TerminatorKind::Return => r#"["ret"]"#.into(),
				TerminatorKind::Drop { target, .. } => format!(r#"["goto",{}]"#, target.as_usize()),
				TerminatorKind::Assert { cond, expected, msg, target, .. } => {
					let m = match &**msg {
						AssertKind::BoundsCheck { .. } => "bounds".to_string(),
						AssertKind::Overflow(o, ..) => format!("overflow {o:?}"),
						AssertKind::OverflowNeg(_) => "overflow Neg".into(),
						AssertKind::DivisionByZero(_) => "div by zero".into(),
						AssertKind::RemainderByZero(_) => "rem by zero".into(),
						_ => "other".into(),
					};
					format!(
						r#"["assert",{},{},{},{}]"#,
						self.op(cond),
						*expected as u8,
						js(&m),
						target.as_usize()
					)
				},
				TerminatorKind::Call { func, args, destination, target, .. } => {
					let ft = func.ty(&b.local_decls, self.tcx);
					let f = match ft.kind() {
						ty::FnDef(d, a) => match self.resolve(*d, a.skip_binder()) {
							Some(f) => f.to_string(),
							None => js(&self.path(*d)),
						},
						_ => self.op(func),
					};
					let a = arr(args.iter().map(|x| self.op(&x.node)));
					format!(
						r#"["call",{f},{a},{},{}]"#,
						self.place(destination),
						target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
					)
				},
				TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
				k => format!(r#"["unsupported",{}]"#, js(&format!("{k:?}"))),
			};
			blocks.push(format!(r#"{{"s":{},"t":{t},"l":{}}}"#, arr(ss), js(&sp)));
		}
		format!(
			r#"{{"argc":{},"locals":{locals},"names":{},"spread":{spread},"blocks":{}}}"#,
			b.arg_count,
			arr(names),
			arr(blocks)
		)
	}
	fn fn_json(&mut self, i: Instance<'tcx>) -> String {
		let d = i.def_id();
		let p = self.path(d);
		let full = ty::print::with_no_trimmed_paths!(format!("{i}"));
		let ga = self.gargs(i.args);
		let kind = match i.def {
			InstanceKind::Item(_) => "item",
			InstanceKind::Intrinsic(_) => "intrinsic",
			InstanceKind::Virtual(..) => "virtual",
			_ => "shim",
		};
		let is_shim = kind == "shim";
		let prim = self.cfg.prims.iter().any(|x| glob(x, &p)) && !is_shim;
		let has = match i.def {
			InstanceKind::Item(d) => self.tcx.is_mir_available(d),
			InstanceKind::Intrinsic(d) =>
				!self.tcx.intrinsic(d).map(|x| x.must_be_overridden).unwrap_or(true) && self.tcx.is_mir_available(d),
			InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => false,
			_ => true,
		};
		// signature types
		let sig = {
			let t = i.ty(self.tcx, env());
			match t.kind() {
				ty::FnDef(..) => {
					let s = self.tcx.instantiate_bound_regions_with_erased(t.fn_sig(self.tcx));
					let ins = arr(s.inputs().iter().map(|x| {
						let x = self.norm(*x);
						self.ty(x).to_string()
					}));
					let o = self.norm(s.output());
					format!("[{ins},{}]", self.ty(o))
				},
				_ => "null".into(),
			}
		};
		let b = if prim || !has { "null".to_string() } else { self.body(i) };
		let (file, line) = {
			let s = self.span(self.tcx.def_span(d));
			s.rsplit_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default()
		};
		let drv = self.tcx.impl_of_assoc(d).map(|x| self.tcx.is_automatically_derived(x)).unwrap_or(false);
		format!(
			r#"{{"p":{},"n":{},"a":{ga},"kind":"{kind}","drv":{},"prim":{},"sig":{sig},"at":{},"crate":{},"body":{b}}}"#,
			js(&p),
			js(&full),
			drv as u8,
			prim as u8,
			js(&format!("{file}:{line}")),
			js(self.tcx.crate_name(d.krate).as_str()),
		)
	}
	fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
		self.tcx
			.try_normalize_erasing_regions(env(), ty::Unnormalized::new_wip(t))
			.unwrap_or(t)
	}
}

fn dump(tcx: TyCtxt<'_>) {
	let cfg = load_cfg();
	let mut d = D {
		tcx,
		cfg,
		model_defs: HashMap::new(),
		tys: HashMap::new(),
		tyq: vec![],
		fns: HashMap::new(),
		fnq: vec![],
	};
	let mut roots = vec![];
	let mut rootn = vec![];
	for ld in tcx.hir_body_owners() {
		let did = ld.to_def_id();
		if !matches!(tcx.def_kind(did), DefKind::Fn) {
			continue;
		}
		let p = d.path(did);
		if p.contains("models::") {
			d.model_defs.insert(p.rsplit("models::").next().unwrap().to_string(), did);
		}
		let last = p.rsplit("::").next().unwrap().to_string();
		if last.starts_with("vc_") && tcx.generics_of(did).own_params.is_empty() {
			roots.push(did);
			rootn.push(p);
		}
	}
	let mut rj = vec![];
	for (r, n) in roots.into_iter().zip(rootn) {
		let i = Instance::mono(tcx, r);
		let id = d.func(i);
		rj.push(format!("[{},{id}]", js(&n)));
	}
	let mut fj = vec![];
	let mut k = 0;
	let mut tj = vec![];
	let mut kt = 0;
	while k < d.fnq.len() || kt < d.tyq.len() {
		if k < d.fnq.len() {
			let i = d.fnq[k];
			fj.push(d.fn_json(i));
			k += 1;
		} else {
			let t = d.tyq[kt];
			tj.push(d.ty_json(t));
			kt += 1;
		}
		if k > 60000 {
			eprintln!("vdriver: too many functions");
			break;
		}
	}
	let out = std::env::var("VDRIVER_OUT").expect("VDRIVER_OUT");
	let s = format!(
		"{{\"roots\":{},\n\"fns\":[{}],\n\"tys\":[{}]}}\n",
		arr(rj),
		fj.join(",\n"),
		tj.join(",\n")
	);
	std::fs::write(out, s).unwrap();
}
