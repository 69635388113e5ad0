//! Minimal FFI to libz3 (C API, 4.8+). Only what the symbolic runtime needs.
#![allow(non_camel_case_types, non_snake_case)]
use std::os::raw::{c_char, c_int, c_uint};

macro_rules! opaque { ($($n:ident),*) => { $( #[repr(C)] pub struct $n { _p: [u8; 0] } )* } }
opaque!(cfg_s, ctx_s, sym_s, ast_s, sort_s, solver_s, model_s, params_s);
pub type Config = *mut cfg_s;
pub type Context = *mut ctx_s;
pub type Symbol = *mut sym_s;
pub type Ast = *mut ast_s;
pub type Sort = *mut sort_s;
pub type Solver = *mut solver_s;
pub type Model = *mut model_s;
pub type Params = *mut params_s;

#[link(name = "z3")]
extern "C" {
  pub fn Z3_mk_config() -> Config;
  pub fn Z3_del_config(c: Config);
  pub fn Z3_mk_context(c: Config) -> Context;
  pub fn Z3_del_context(c: Context);
  pub fn Z3_set_error_handler(c: Context, h: Option<extern "C" fn(Context, c_int)>);
  pub fn Z3_mk_string_symbol(c: Context, s: *const c_char) -> Symbol;
  pub fn Z3_mk_bool_sort(c: Context) -> Sort;
  pub fn Z3_mk_bv_sort(c: Context, sz: c_uint) -> Sort;
  pub fn Z3_mk_const(c: Context, s: Symbol, ty: Sort) -> Ast;
  pub fn Z3_mk_true(c: Context) -> Ast;
  pub fn Z3_mk_false(c: Context) -> Ast;
  pub fn Z3_mk_eq(c: Context, l: Ast, r: Ast) -> Ast;
  pub fn Z3_mk_not(c: Context, a: Ast) -> Ast;
  pub fn Z3_mk_ite(c: Context, a: Ast, b: Ast, d: Ast) -> Ast;
  pub fn Z3_mk_and(c: Context, n: c_uint, a: *const Ast) -> Ast;
  pub fn Z3_mk_or(c: Context, n: c_uint, a: *const Ast) -> Ast;
  pub fn Z3_mk_bvnot(c: Context, a: Ast) -> Ast;
  pub fn Z3_mk_bvand(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvor(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvxor(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvadd(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvsub(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvmul(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvneg(c: Context, a: Ast) -> Ast;
  pub fn Z3_mk_bvudiv(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvurem(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvsdiv(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvsrem(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvshl(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvlshr(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvashr(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvslt(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_sign_ext(c: Context, n: c_uint, a: Ast) -> Ast;
  pub fn Z3_mk_zero_ext(c: Context, n: c_uint, a: Ast) -> Ast;
  pub fn Z3_mk_bvult(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_bvule(c: Context, a: Ast, b: Ast) -> Ast;
  pub fn Z3_mk_extract(c: Context, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
  pub fn Z3_mk_bv_numeral(c: Context, sz: c_uint, bits: *const bool) -> Ast;
  pub fn Z3_mk_func_decl(c: Context, s: Symbol, n: c_uint, dom: *const Sort, r: Sort) -> *mut u8;
  pub fn Z3_mk_app(c: Context, d: *mut u8, n: c_uint, args: *const Ast) -> Ast;
  pub fn Z3_mk_simple_solver(c: Context) -> Solver;
  pub fn Z3_mk_solver(c: Context) -> Solver;
  pub fn Z3_solver_inc_ref(c: Context, s: Solver);
  pub fn Z3_solver_dec_ref(c: Context, s: Solver);
  pub fn Z3_solver_push(c: Context, s: Solver);
  pub fn Z3_solver_pop(c: Context, s: Solver, n: c_uint);
  pub fn Z3_solver_assert(c: Context, s: Solver, a: Ast);
  pub fn Z3_solver_check(c: Context, s: Solver) -> c_int;
  pub fn Z3_solver_check_assumptions(c: Context, s: Solver, n: c_uint, a: *const Ast) -> c_int;
  pub fn Z3_solver_get_model(c: Context, s: Solver) -> Model;
  pub fn Z3_solver_set_params(c: Context, s: Solver, p: Params);
  pub fn Z3_solver_to_string(c: Context, s: Solver) -> *const c_char;
  pub fn Z3_mk_params(c: Context) -> Params;
  pub fn Z3_params_inc_ref(c: Context, p: Params);
  pub fn Z3_params_set_uint(c: Context, p: Params, k: Symbol, v: c_uint);
  pub fn Z3_model_inc_ref(c: Context, m: Model);
  pub fn Z3_model_dec_ref(c: Context, m: Model);
  pub fn Z3_model_eval(c: Context, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
  pub fn Z3_get_bool_value(c: Context, a: Ast) -> c_int;
  pub fn Z3_get_numeral_binary_string(c: Context, a: Ast) -> *const c_char;
  pub fn Z3_get_numeral_string(c: Context, a: Ast) -> *const c_char;
  pub fn Z3_ast_to_string(c: Context, a: Ast) -> *const c_char;
  pub fn Z3_simplify(c: Context, a: Ast) -> Ast;
  pub fn Z3_get_bv_sort_size(c: Context, t: Sort) -> c_uint;
  pub fn Z3_get_sort(c: Context, a: Ast) -> Sort;
}
