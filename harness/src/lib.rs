extern crate dynparser;

pub mod gen;
pub mod h_ast;
pub mod h_atom;
pub mod h_core;
pub mod h_gcode;
pub mod h_peg;
pub mod h_read;
pub mod h_set;
pub mod model;
pub mod norm;
pub mod sym;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// harness by name, for native replay
        pub fn entry(name: &str) -> Option<fn()> {
            match name {
                $(stringify!($f) => Some($m::$f),)*
                _ => None,
            }
        }
        $(
            const _: () = {
                #[export_name = concat!("H_", stringify!($f))]
                pub extern "C" fn exported() { $m::$f() }
            };
        )*
    };
}

entries! {
    h_ast::c19_trees,
    h_ast::c19_lone,
    h_ast::c19_near,
    h_ast::c19_big,
    h_ast::c19_huge,
    h_ast::c19_unicode,
    h_ast::c20_trees,
    h_ast::c20_names,
    h_ast::c20_unicode,
    h_ast::c20_order,
    h_ast::c20_near,
    h_ast::c20_many,
    h_ast::c20_lone,
    h_ast::c20_big,
    h_ast::c20_huge,
    h_ast::c21_trees,
    h_ast::c21_names,
    h_ast::c21_unicode,
    h_ast::c21_near,
    h_ast::c21_many,
    h_ast::c21_lone,
    h_ast::c21_big,
    h_ast::c21_huge,
    h_ast::c21_order,
    h_ast::c22_trees,
    h_ast::c22_unicode,
    h_ast::c22_lone,
    h_ast::c22_near,
    h_ast::c22_names,
    h_ast::c22_big,
    h_ast::c22_huge,
    h_ast::c23_ast,
    h_ast::c23_kids,
    h_ast::c23_long,
    h_ast::c23_unicode,
    h_ast::c23_near,
    h_ast::c23_flat,
    h_atom::c02_symbolic,
    h_atom::c02_long,
    h_atom::c02_huge,
    h_atom::c02_greedy,
    h_atom::c02_partial,
    h_atom::c02_empty,
    h_atom::c03_literal,
    h_atom::c03_literal_long,
    h_atom::c03_class,
    h_atom::c03_class_wide,
    h_atom::c03_dot_eof,
    h_core::c01_trees,
    h_core::c01_trees3,
    h_core::c01_big,
    h_core::c01_table,
    h_core::c01_wide,
    h_core::c01_odd,
    h_core::c01_ascii,
    h_core::c01_unicode,
    h_core::c01_groups,
    h_core::c01_names,
    h_core::c04_unicode,
    h_core::c04_trees,
    h_core::c04_big,
    h_core::c04_table,
    h_core::c04_wide,
    h_core::c04_groups,
    h_core::c05_trees,
    h_core::c05_big,
    h_core::c05_table,
    h_core::c05_wide,
    h_core::c05_odd,
    h_core::c05_rules,
    h_core::c05_ascii,
    h_core::c05_unicode,
    h_core::c05_groups,
    h_core::c05_names,
    h_core::c06_trees,
    h_core::c06_big,
    h_core::c06_wide,
    h_core::c06_unicode,
    h_core::c06_long,
    h_core::c06_huge,
    h_core::c06_groups,
    h_core::c07_trees,
    h_core::c07_nested,
    h_core::c07_big,
    h_core::c07_wide,
    h_core::c07_ascii,
    h_core::c07_groups,
    h_core::c07_names,
    h_core::c08_trees,
    h_core::c08_told_trees,
    h_core::c08_choices,
    h_core::c08_big,
    h_core::c08_table,
    h_core::c08_wide,
    h_core::c08_lits,
    h_core::c08_ascii,
    h_core::c08_unicode,
    h_core::c08_groups,
    h_core::c08_lines,
    h_core::c09_trees,
    h_core::c09_big,
    h_core::c09_wide,
    h_core::c09_odd,
    h_core::c09_unicode,
    h_core::c09_bounds,
    h_core::c09_empty,
    h_core::c09_groups,
    h_core::c09_names,
    h_core::c10_trees,
    h_core::c10_big,
    h_core::c10_wide,
    h_core::c10_interleaved,
    h_core::c10_rules,
    h_core::c10_ascii,
    h_core::c10_groups,
    h_core::c10_names,
    h_core::c10_many,
    h_core::c10_sets,
    h_core::c10_texts,
    h_core::c24_trees,
    h_core::c24_choices,
    h_core::c24_unicode,
    h_core::c24_lits,
    h_core::c24_big,
    h_core::c24_table,
    h_core::c24_wide,
    h_core::c06_bytes,
    h_core::c09_bytes,
    h_core::c24_names,
    h_core::c24_bytes,
    h_core::c10_after,
    h_core::c24_ranges,
    h_core::c10_walk,
    h_gcode::c18_trees,
    h_gcode::c18_leaves,
    h_gcode::c18_chars,
    h_gcode::c18_names,
    h_gcode::c18_bounds,
    h_gcode::c18_looks,
    h_gcode::c18_wide,
    h_gcode::c18_peg,
    h_peg::c12_trees,
    h_peg::c12_trees3,
    h_peg::c12_leaves,
    h_peg::c12_pairs,
    h_peg::c12_long_names,
    h_peg::c12_names,
    h_peg::c12_symbols,
    h_peg::c12_wide,
    h_peg::c12_big,
    h_peg::c12_modules,
    h_peg::c12_nested,
    h_peg::c12_parse,
    h_peg::c13_single,
    h_peg::c13_double,
    h_peg::c13_mixed,
    h_peg::c13_long,
    h_peg::c13_looks,
    h_peg::c14_classes,
    h_peg::c14_looks,
    h_peg::c14_unicode,
    h_peg::c14_wide,
    h_peg::c15_one,
    h_peg::c15_module,
    h_peg::c15_two,
    h_peg::c15_all,
    h_peg::c15_comment,
    h_peg::c15_comment_unicode,
    h_peg::c15_comment_long,
    h_peg::c16_any,
    h_peg::c16_unicode,
    h_peg::c16_mutant,
    h_peg::c16_mutant_unicode,
    h_peg::c16_pair,
    h_peg::c16_cut,
    h_peg::c16_deep,
    h_peg::c17_any,
    h_peg::c17_mutant,
    h_peg::c17_mutant_unicode,
    h_peg::c17_cut,
    h_peg::c17_self,
    h_peg::c17_tokens,
    h_peg::c17_tail,
    h_peg::c17_foreign,
    h_peg::c12_after,
    h_read::c25_any,
    h_read::c25_tail,
    h_read::c25_mutant,
    h_read::c25_unicode,
    h_read::c25_cut,
    h_read::c25_pair,
    h_read::c25_joined,
    h_read::c25_tokens,
    h_read::c25_foreign,
    h_read::c25_trees,
    h_set::c11_history,
    h_set::c11_parse,
    h_set::c11_many,
    h_set::c11_shared,
    h_set::c11_macros,
    h_set::c11_names,
}
