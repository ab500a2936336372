//! Harnesses over the grammar core (`chomp::chomp`).
pub mod ast;
pub mod types;
pub mod code;
pub mod sets;
pub mod names;
pub mod reduce;
pub mod sound;
pub mod labels;
pub mod equal;
sym::table!(TABLE: types::h_infer_small, types::h_infer5, types::h_infer6, types::h_infer7, types::h_infer8, types::h_infer9, types::h_infer10, types::h_infer_fun, types::h_infer_rec4, types::h_infer_rec5, types::h_infer_rec6, types::h_gamma4, types::h_gamma5, types::h_infer_many, types::h_infer_deep, reduce::h_reduce_many, labels::h_labels_many, code::h_code_many, code::h_called_many, code::h_again_many, equal::h_alike_many, types::h_infer_chain, types::h_infer_branches, types::h_infer_wide4, types::h_infer_wide6, types::h_infer_wide9, code::h_code5, code::h_code7, code::h_code8, code::h_code_shared, code::h_code_names3, code::h_code_names4, code::h_code_names5, labels::h_labels4, labels::h_labels5, labels::h_labels6, labels::h_labels7, labels::h_labels_args, labels::h_labels_wide, labels::h_labels_chain, code::h_again5, code::h_again_names, code::h_again_names4, code::h_again_after, code::h_again_wide, sets::h_sets, sets::h_of_str, sets::h_types, sets::h_sets_any, sets::h_sets_many, sets::h_sets_among, sets::h_types_many, names::h_name_eq, names::h_name_merge, names::h_name_case, names::h_name_long, names::h_name_script, names::h_name_block, reduce::h_reduce4, reduce::h_reduce5, reduce::h_reduce6, reduce::h_reduce7, reduce::h_reduce8, reduce::h_subst, sound::h_sound_small, sound::h_sound6, sound::h_sound7, sound::h_sound8, sound::h_sound9, sound::h_sound_wide, sound::h_sound_rec, sound::h_sound_chain, sound::h_sound_branches, code::h_code_wide, code::h_code_lits, code::h_code_twins, code::h_called3, code::h_called4, code::h_called5, code::h_called_shared5, code::h_called_shared7, code::h_called_twice, code::h_called_under, code::h_called_wide, reduce::h_reduce_args, reduce::h_reduce_wide, reduce::h_reduce_chain, equal::h_alike3, equal::h_alike4, equal::h_alike34, equal::h_alike_wide, equal::h_alike_typed3, equal::h_alike_typed4, equal::h_msg_count, equal::h_msg_name, equal::h_msg_escape);
