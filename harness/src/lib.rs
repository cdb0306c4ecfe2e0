pub mod amid;
pub mod cursor;
pub mod edits;
pub mod files;
pub mod frame;
pub mod gen;
pub mod history;
pub mod model;
pub mod spaces;
pub mod sym;
pub mod text;
pub mod tokens;

use gen::*;
use history::Watch::*;

/// Declares the entry points: exported functions for the engine, and a table
/// for the replayer.
macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $body
            }
        )*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

entries! {
    c01_insert => edits::insert_once(3, BREAKS, 2, &[0, 1, 5]);
    c01_delete => edits::delete_once(3, CLUSTERS, &[0, 1, 5]);
    c01_sequence => edits::edit_sequence(2, &[LETTER, LF], 3, &[0, 1, 9]);
    c01_large => edits::edit_large(90, &[1, 300], 2);
    c01_buffer => edits::buffer_edits(2, BREAKS, 2);
    c02_insert => edits::insert_missing(3, BREAKS, &[0, 3], &[0, 1, 20]);
    c02_delete => edits::delete_any(3, BREAKS, &[0, 3], true);
    c02_buffer => edits::buffer_anywhere(3, BREAKS);
    c03_existence => edits::existence(4, CLUSTERS, &[0, 2]);
    c03_reads => edits::reads(3, CLUSTERS, &[0, 2]);
    c03_after => edits::reads_after_edits(2, BREAKS, 1);
    c04_edit => history::edits_and_back(2, BREAKS, 1, 2, Content);
    c04_edits => history::edits_and_back(1, &[LETTER, LF], 2, 1, Content);
    c04_walk => history::walk(6, 3, false, Content);
    c04_ineffective => history::ineffective(2, BREAKS);
    c05_discard => history::edit_after_undo(1, &[LETTER, LF], Content);
    c05_walk => history::walk(6, 2, true, Content);
    c06_group => history::group_and_back(1, &[LETTER, LF], 2, 1, Content);
    c06_walk => history::walk(6, 2, true, Content);
    c07_edits => files::modified_edits(1, &[LETTER, LF], 2);
    c07_walk => files::modified(5, 2, true);
    c07_plain => files::modified(5, 2, false);
    c07_new => files::modified_new(5, 2);
    c07_pathless => files::pathless(3);
    c08_open => files::open(4);
    c08_open_long => files::open_long(200);
    c08_open_fails => files::open_fails();
    c08_save => files::save(2, BREAKS, 2);
    c08_save_large => files::save_large(300);
    c08_save_fails => files::save_fails(4);
    c08_named => files::named();
    c08_shared => files::shared(4);
    c09_named => files::named();
    c09_shared => files::shared(4);
    c09_reload => files::reload(1, BREAKS, 2, 1);
    c09_fails => files::reload_fails(3);
    c10_reload => files::history(4, 2, true, Announced);
    c11_moves => cursor::movement(3, CLUSTERS, &[0, 2], 1, false);
    c11_sequence => cursor::movement(3, BREAKS, &[0], 2, false);
    c12_moves => cursor::movement(3, BREAKS, &[0], 2, true);
    c12_clusters => cursor::movement(3, CLUSTERS, &[0, 2], 1, true);
    c12_shape => cursor::movement_shape(3, 2, 2);
    c13_replace => cursor::replace(2, 2, BREAKS, false);
    c13_reload => cursor::replace(2, 2, &[LETTER, LF], true);
    c13_same => cursor::replace_same(2, BREAKS);
    c13_large => cursor::replace_large(&[0, 10, 40, 85, 120]);
    c14_search => text::search(3, 2, BREAKS, &[0]);
    c14_gap => text::search(2, 2, BREAKS, &[0, 3]);
    c14_wide => text::search(3, 1, CLUSTERS, &[0]);
    c14_long => text::search_long(&[5, 17, 40, 70, 300]);
    c14_long_deep => text::search_long(&[8, 16, 32, 64, 128, 255, 256, 257, 1100]);
    c17_shapes => tokens::failures(0, SHAPES, 1, tokens::FAILING, false);
    c04_long_deep => history::long(66000, &[1], Content);
    c05_long_deep => history::long(66000, &[1, 3], Content);
    c06_long_deep => history::long(66000, &[2, 5, 66000], Content);
    c01_amid => amid::edited(3, false);
    c02_amid => amid::edited(3, true);
    c03_amid => amid::asked(4, amid::Ask::Reads);
    c11_amid => amid::asked(4, amid::Ask::Moves);
    c12_amid => amid::columns(3);
    c14_amid => amid::asked(4, amid::Ask::Search);
    c15_amid => amid::asked(4, amid::Ask::Lines);
    c16_amid => amid::asked(4, amid::Ask::Tokens);
    c15_lines => text::iteration(4, CLUSTERS);
    c15_edited => text::counts(2, BREAKS, 2);
    c18_order => text::order();
    c18_ranges => text::ranges();
    c18_lines => text::line_ranges();
    c19_adding => text::adding();
    c19_distance => text::distance(2, 2, 1, BREAKS);
    c19_clusters => text::distance(1, 3, 1, CLUSTERS);
    c16_tokens => tokens::tokens(3, BREAKS, 2, 3, false);
    c16_scopes => tokens::tokens(2, &[LETTER], 3, 7, false);
    c16_clusters => tokens::tokens(3, CLUSTERS, 1, 1, false);
    c16_workspace => tokens::tokens(2, BREAKS, 1, 3, true);
    c17_failures => tokens::failures(3, &[LETTER, LF], 1, 5, false);
    c17_scopes => tokens::failures(2, BREAKS, 2, 5, false);
    c17_workspace => tokens::failures(2, &[LETTER, LF], 1, 5, true);
    c17_unavailable => tokens::unavailable();
    c20_buffers => spaces::buffers(7);
    c20_states => spaces::states(5);
    c20_massive => spaces::massive(300);
    c20_massive_deep => spaces::massive(65600);
    c20_states_deep => spaces::states(6);
    c20_many => spaces::many(4, 5);
    c20_selected => spaces::selected(5);
    c21_ids => spaces::ids(5);
    c22_opening => spaces::opening(0, 3, 5);
    c22_altered => spaces::altered(5);
    c22_alike => spaces::alike();
    c22_names => spaces::odd_names();
    c22_altered_deep => spaces::altered(6);
    c08_shared_deep => files::shared(5);
    c09_shared_deep => files::shared(5);
    c07_pathless_deep => files::pathless(4);
    c23_spelled => spaces::spelled(3);
    c23_spelled_deep => spaces::spelled(4);
    c23_rooted => spaces::rooted(4);
    c22_sequence => spaces::opening(0, 5, 1);
    c23_paths => spaces::paths(2, 2);
    c23_sequence => spaces::paths(0, 4);
    c23_neighbours => spaces::neighbours(1);
    c24_syntaxes => spaces::syntaxes(5, false);
    c24_renamed => spaces::syntaxes(4, true);
    c24_opened => spaces::opened(5);
    c24_kept => spaces::kept(6);
    c10_edit => history::edits_and_back(2, BREAKS, 1, 2, Announced);
    c10_group => history::group_and_back(1, &[LETTER, LF], 2, 1, Announced);
    c10_walk => history::walk(5, 3, true, Announced);

    c01_shapes => edits::insert_once(0, SHAPES, 0, &[0, 3]);
    c01_shapes_delete => edits::delete_once(0, SHAPES, &[0, 3]);
    c02_shapes => edits::insert_missing(0, SHAPES, &[0], &[1]);
    c02_shapes_delete => edits::delete_any(0, SHAPES, &[0], false);
    c03_shapes => edits::existence(0, SHAPES, &[0, 2]);
    c03_shapes_reads => edits::reads(0, SHAPES, &[0, 2]);
    c04_shapes => history::edits_and_back(0, SHAPES, 1, 0, Content);
    c10_shapes => history::edits_and_back(0, SHAPES, 1, 0, Announced);
    c11_shapes => cursor::movement(0, SHAPES, &[0], 1, false);
    c12_shapes => cursor::movement(0, SHAPES, &[0], 1, true);
    c13_shapes => cursor::replace(0, 0, SHAPES, false);
    c14_shapes => text::search_shapes(2);
    c15_shapes => text::iteration(0, SHAPES);
    c16_shapes => tokens::tokens(0, SHAPES, 1, 2, false);
    c19_shapes => text::distance(0, 0, 0, SHAPES);

    c04_long => history::long(20000, &[1], Content);
    c04_files => files::history(6, 1, false, Content);
    c05_files => files::history(5, 1, true, Content);
    c05_long => history::long(5000, &[1, 3, 5000], Content);
    c06_long => history::long(12000, &[2, 5, 12000], Content);
    c06_files => files::history(5, 1, true, Content);
    c07_long => files::long(300, &[1, 3, 150], Modified);
    c07_shapes => files::modified_edits(0, SHAPES, 1);
    c10_long => files::long(140, &[1, 3, 70], Announced);
    c11_walk => cursor::movement_walk(4, 3, false);
    c12_walk => cursor::movement_walk(4, 3, true);

    c01_wide => edits::insert_once(1, EVERYTHING, 1, &[0, 2]);
    c01_huge => edits::edit_large(90, &[5000], 1);
    c03_wide => edits::existence(2, EVERYTHING, &[0, 2]);
    c04_wide => history::edits_and_back(1, EVERYTHING, 1, 1, Content);
    c08_shapes => files::save(0, SHAPES, 1);
    c08_open_large => files::open_long(20000);
    c09_shapes => files::reload(0, SHAPES, 0, 0);
    c11_wide => cursor::movement(2, EVERYTHING, &[0], 1, false);
    c12_wide => cursor::movement(2, EVERYTHING, &[0], 1, true);
    c14_classes => text::search(2, 1, EVERYTHING, &[0]);
    c15_wide => text::iteration(3, EVERYTHING);
    c16_wide => tokens::tokens(2, EVERYTHING, 1, 1, false);
    c19_wide => text::distance(0, 2, 1, EVERYTHING);
    c20_more => spaces::many(12, 3);

    c01_big => edits::big(BIG, false, 3);
    c03_big => edits::big_reads();
    c04_big => history::big(BIG, Content);
    c10_spread => history::spread(&[3, 12, 40, 200, 1100], Announced);
    c06_spread => history::spread(&[3, 12, 40, 200, 1100], Content);
    c10_big => history::big(BIG, Announced);
    c11_big => cursor::movement_big(BIG, false, false);
    c12_big => cursor::movement_big(BIG, true, false);
    c14_big => text::search_big(BIG, 2);
    c15_big => text::iteration(0, BIG);
    c16_big => tokens::dense(BIG);
    c16_dense => tokens::dense(SHAPES);
    c19_big => text::distance_big(BIG, false);
    c21_many => spaces::many_ids(300);
    c22_among => spaces::opening(3, 3, 1);

    c25_edits => frame::edits(1, &[LETTER, LF], 2, 1);
    c25_added => frame::edits(1, LINES, 1, 3);
    c25_single => frame::edits(2, BREAKS, 1, 2);
    c25_walk => frame::walk(5, false);
    c25_replaced => frame::walk(4, true);
    c25_saving => frame::saving(3, 7);
    c25_saving_deep => frame::saving(4, 7);
    c25_large => frame::large(40, &[1, 30, 300]);
    c25_large_deep => frame::large(100, &[3, 100, 1000]);
    c25_asking => frame::asking(2);
    c25_reading => frame::reading(3, BREAKS, &[0, 2]);
    c25_workspace => frame::asking_workspace(3);
    c26_names => frame::names(4);
    c27_files => frame::file_errors();
    c27_workspace => frame::workspace_errors();

    // The thorough tier's.
    c01_insert_deep => edits::insert_once(4, BREAKS, 2, &[0, 1, 5]);
    c01_insert_classes => edits::insert_once(2, EVERYTHING, 1, &[0, 2]);
    c01_delete_deep => edits::delete_once(4, CLUSTERS, &[0, 1, 5]);
    c01_delete_classes => edits::delete_once(2, EVERYTHING, &[0, 2]);
    c01_sequence_deep => edits::edit_sequence(3, &[LETTER, LF], 3, &[0, 1, 9]);
    c01_large_deep => edits::edit_large(120, &[1, 300, 3000], 2);
    c01_buffer_deep => edits::buffer_edits(3, BREAKS, 2);
    c02_insert_deep => edits::insert_missing(4, CLUSTERS, &[0, 3], &[0, 1, 20]);
    c02_delete_deep => edits::delete_any(4, CLUSTERS, &[0, 3], false);
    c02_buffer_deep => edits::buffer_anywhere(4, CLUSTERS);
    c03_existence_deep => edits::existence(5, CLUSTERS, &[0, 2]);
    c03_existence_classes => edits::existence(3, EVERYTHING, &[0, 2]);
    c03_reads_deep => edits::reads(4, CLUSTERS, &[0, 2]);
    c03_after_deep => edits::reads_after_edits(2, BREAKS, 2);
    c04_edit_deep => history::edits_and_back(3, CLUSTERS, 1, 2, Content);
    c04_edits_deep => history::edits_and_back(2, &[LETTER, LF], 2, 2, Content);
    c04_edits_three => history::edits_and_back(1, &[LETTER, LF], 3, 1, Content);
    c04_walk_deep => history::walk(7, 4, false, Content);
    c04_ineffective_deep => history::ineffective(3, CLUSTERS);
    c05_discard_deep => history::edit_after_undo(2, BREAKS, Content);
    c05_walk_deep => history::walk(7, 3, true, Content);
    c06_group_deep => history::group_and_back(2, BREAKS, 2, 1, Content);
    c06_group_three => history::group_and_back(1, &[LETTER, LF], 3, 1, Content);
    c06_walk_deep => history::walk(7, 3, true, Content);
    c07_edits_deep => files::modified_edits(2, BREAKS, 2);
    c07_walk_deep => files::modified(6, 3, true);
    c07_plain_deep => files::modified(6, 3, false);
    c07_new_deep => files::modified_new(7, 2);
    c08_open_deep => files::open(6);
    c08_open_long_deep => files::open_long(2000);
    c08_save_deep => files::save(3, CLUSTERS, 2);
    c08_save_large_deep => files::save_large(2000);
    c08_save_fails_deep => files::save_fails(6);
    c09_reload_deep => files::reload(2, BREAKS, 2, 1);
    c09_fails_deep => files::reload_fails(5);
    c10_reload_deep => files::history(5, 3, true, Announced);
    c10_edit_deep => history::edits_and_back(3, CLUSTERS, 1, 2, Announced);
    c10_edits_deep => history::edits_and_back(2, &[LETTER, LF], 2, 1, Announced);
    c10_group_deep => history::group_and_back(2, &[LETTER, LF], 2, 1, Announced);
    c10_walk_deep => history::walk(6, 4, true, Announced);
    c11_moves_deep => cursor::movement(4, CLUSTERS, &[0, 2], 1, false);
    c11_sequence_deep => cursor::movement(3, BREAKS, &[0], 3, false);
    c11_classes => cursor::movement(2, EVERYTHING, &[0], 1, false);
    c12_moves_deep => cursor::movement(4, BREAKS, &[0], 2, true);
    c12_clusters_deep => cursor::movement(4, CLUSTERS, &[0, 2], 1, true);
    c12_shape_deep => cursor::movement_shape(2, 2, 3);
    c13_replace_deep => cursor::replace(3, 2, BREAKS, false);
    c13_reload_deep => cursor::replace(3, 2, BREAKS, true);
    c13_same_deep => cursor::replace_same(4, CLUSTERS);
    c13_large_deep => cursor::replace_large(&[0, 1, 10, 39, 40, 41, 85, 120, 300]);
    c14_search_deep => text::search(5, 2, BREAKS, &[0]);
    c14_gap_deep => text::search(4, 3, BREAKS, &[0, 3]);
    c14_wide_deep => text::search(4, 2, CLUSTERS, &[0, 1]);
    c15_lines_deep => text::iteration(6, CLUSTERS);
    c15_edited_deep => text::counts(3, BREAKS, 2);
    c16_tokens_deep => tokens::tokens(4, BREAKS, 1, 3, false);
    c16_clusters_deep => tokens::tokens(4, CLUSTERS, 2, 1, false);
    c16_workspace_deep => tokens::tokens(3, BREAKS, 2, 3, true);
    c17_failures_deep => tokens::failures(3, &[LETTER, LF], 2, 5, false);
    c17_scopes_deep => tokens::failures(3, BREAKS, 1, 5, false);
    c19_distance_deep => text::distance(3, 2, 2, BREAKS);
    c19_clusters_deep => text::distance(2, 3, 1, CLUSTERS);
    c20_buffers_deep => spaces::buffers(9);
    c20_many_deep => spaces::many(6, 7);
    c20_selected_deep => spaces::selected(7);
    c21_ids_deep => spaces::ids(6);
    c22_opening_deep => spaces::opening(0, 4, 5);
    c22_sequence_deep => spaces::opening(0, 5, 2);
    c23_paths_deep => spaces::paths(2, 3);
    c23_three => spaces::paths(3, 1);
    c23_three_deep => spaces::paths(3, 2);
    c23_sequence_deep => spaces::paths(0, 5);
    c24_syntaxes_deep => spaces::syntaxes(7, false);
    c24_renamed_deep => spaces::syntaxes(5, true);
    c24_opened_deep => spaces::opened(7);
    c24_kept_deep => spaces::kept(7);
    c01_big_deep => edits::big(BIG, true, 3);
    c11_big_deep => cursor::movement_big(BIG, false, true);
    c12_big_deep => cursor::movement_big(BIG, true, true);
    c19_big_deep => text::distance_big(BIG, true);
    c01_massive => edits::big(MASSIVE, false, 2);
    c01_massive_deep => edits::big(MASSIVE, false, 3);
    c02_massive => edits::massive_missing();
    c03_massive => edits::massive_reads();
    c07_massive => history::massive(65600);
    c09_massive => cursor::replace_massive(true);
    c09_near => cursor::replace_near(true);
    c13_near => cursor::replace_near(false);
    c13_massive => cursor::replace_massive(false);
    c21_massive => spaces::massive_ids(65600);
    c04_massive => history::big(MASSIVE, Content);
    c08_massive => files::open_long(1100000);
    c08_massive_deep => files::open_long(17000000);
    c14_many => text::search_many(30, 40);
    c14_many_deep => text::search_many(1000, 70);
    c10_massive_deep => history::big(MASSIVE, Announced);
    c11_massive => cursor::movement_big(MASSIVE, false, false);
    c12_massive => cursor::movement_big(MASSIVE, true, false);
    c14_massive => text::search_big(MASSIVE, 1);
    c15_massive => text::iteration(0, MASSIVE);
    c12_far => cursor::columns_far(&[300], 4);
    c12_far_massive => cursor::columns_far(&[65600], 2);
    c12_far_deep => cursor::columns_far(&[300, 5000], 6);
    c16_nested => tokens::nested(&[3, 70, 300]);
    c16_nested_deep => tokens::nested(&[1100]);
    c16_definitions => tokens::definitions(4);
    c16_definitions_deep => tokens::definitions(5);
    c17_far => tokens::failures_far(BIG);
    c17_massive => tokens::failures_far(MASSIVE);
    c16_massive => tokens::dense(MASSIVE);
    c19_massive => text::distance_big(MASSIVE, false);
    c25_edits_deep => frame::edits(1, BREAKS, 2, 1);
    c25_added_deep => frame::edits(2, LINES, 1, 3);
    c25_walk_deep => frame::walk(6, false);
    c25_replaced_deep => frame::walk(6, true);
    c25_asking_deep => frame::asking(3);
    c25_reading_deep => frame::reading(4, CLUSTERS, &[0, 2]);
    c26_names_deep => frame::names(6);
    c16_shapes_deep => tokens::tokens(0, SHAPES, 2, 2, false);
}
