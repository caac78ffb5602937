def P(modules, entries, bounds, **k):
    d = {"modules": modules, "entries": [e if isinstance(e, dict) else {"name": e} for e in entries], "bounds": bounds, "assumptions": []}
    d.update(k)
    return d
PROPS = {
 "C01": P([("io/file_distribution.rs", "c01.rs")], ["c01_input_1", "c01_input_2", "c01_input_3"], "1 file of up to 1e6 entries and 8 ranks; 2 files of up to 1e5 and 4 ranks; 3 files of up to 1000 and 4 ranks", ints=True),
 "C02": P([("io/file_distribution.rs", "c02.rs")], ["c02_output_1", "c02_output_2", "c02_output_3"], "1 rank, 6 files, up to 1e6 entries; 2 ranks, 4 files, up to 1e5 entries each; 3 ranks, 3 files, up to 1000 entries each", ints=True),
 "C03": P([("communication/data_by_rank.rs", "c03.rs")], ["c03_from_empty", "c03_from_size", "c03_construct", "c03_many", "c03_hundreds", {"name": "c03_size", "ints": True}, {"name": "c03_deep", "tier": "thorough"}], "up to 4 ranks, 2 (thorough: 3) operations in every order; up to 40 ranks inserted in four orders, 300 ranks in one; up to 2^40 elements per rank"),
 "C04": P([("communication/exchange_communicator.rs", "c04.rs")], ["c04_all", "c04_all_4", "c04_same", "c04_blocking", "c04_rounds"], "up to 4 ranks, messages of up to 2 elements, 2 rounds"),
 "C05": P([("communication/exchange_communicator.rs", "c05.rs")], ["c05_small", "c05_large", {"name": "c05_values", "ints": False}], "3 ranks, up to 4 chunks of up to 1e6 elements", ints=True),
 "C06": P([("communication/mpi_world.rs", "c06.rs")], ["c06_gather", "c06_reduce", "c06_same", "c06_varcount", "c06_tag"], "up to 4 ranks; all hashes of the type", havoc=[("communication/mpi_world.rs", "fn get_hash_for_type", "+ unsafe { if let Some(h) = vp_c06::HASH { return h; } }")]),
}
PROPS["C07"] = P([("communication/mod.rs", "c07.rs"), ("sweep/task.rs", "c07b.rs")], ["c07_option", "c07_identified", "c07_keys", "c07_extent", "c07_rate_data"], "all values of the types listed")
D5 = ["0", "1", "2", "3", "4"]
PROPS["C08"] = P([("peano_hilbert.rs", "c08.rs")], [{"name": "c08_curve2", "choose": D5}, {"name": "c08_curve3", "choose": D5}, {"name": "c08_box2", "reals": True}, {"name": "c08_box3", "reals": True},
  {"name": "c08_curve2_deep", "tier": "thorough", "choose": D5}, {"name": "c08_curve3_deep", "tier": "thorough", "choose": D5}],
  "all pairs of cells inside windows of 3 levels (thorough: 4) at 5 depths of the 32 (2D) and 42 (3D) levels, below 4 prefixes; the corners of every box", fold=200, wrap=True)
PROPS["C09"] = P([("extent.rs", "c09.rs")], ["c09_points2", "c09_points3", "c09_empty", "c09_images"], "up to 3 points in two, 2 in three dimensions; coordinates up to 1000", reals=True)
PROPS["C10"] = P([("voronoi/math/utils.rs", "c10.rs")], ["c10_det3", "c10_det4", "c10_det5", "c10_sign3", "c10_exact3", "c10_tiny", "c10_singular", "c10_signs", "c10_large"], "all matrices with entries up to 100 (determinants; 3x3 signs where the determinant is beyond rounding), all 3x3 matrices of the entries -1, 0, 2 in two rows with dependent or independent third row, 24 singular matrices up to 5x5 with entries of different sizes, and matrices within 2^-52 of singular ones", reals=True)
PROPS["C11"] = P([("voronoi/math/utils.rs", "c11.rs")], ["c11_two", "c11_three", "c11_checked", {"name": "c11_checked_any", "tier": "thorough", "choose": [str(i) for i in range(4)]}], "two equations with all six numbers free; three equations with every pattern of zeros among two sets of coefficients and a free right hand side (thorough: one coefficient free as well)", reals=True)
PROPS["C12"] = P([("voronoi/indexed_arena.rs", "c12.rs")], ["c12_arena", "c12_vec", {"name": "c12_arena_deep", "tier": "thorough"}], "4 (thorough: 5) operations in every order")
PROPS["C13"] = P([("sweep/direction/mod.rs", "c13.rs")], ["c13_orthogonal", "c13_det", "c13_multiply", "c13_norm"], "every value of the three random numbers", reals=True, one_s=20)
PROPS["C14"] = P([("sweep/timestep_state.rs", "c14.rs")], [{"name": "c14_level", "reals": True}, "c14_extreme", "c14_order", "c14_aligned"], "up to 6 levels (12 for the alignment of the first rounds), every number of rounds done, all largest steps from 1e-3 to 1e3 and desired steps from 1e-6 to 1e6")
PROPS["C15"] = P([("sweep/active_list.rs", "c15.rs")], ["c15_list", "c15_refused", "c15_stale", {"name": "c15_list_deep", "tier": "thorough"}], "up to 3 cells and 3 levels, 1 (thorough: 2) operations of every kind")
SWEEP = "one process with up to 3 cells in 15 grids with neighbours on two other processes and across the boundary of the box, up to 3 directions, 2 (thorough: 3) timestep levels in every combination, all sources and all states left by earlier sweeps up to 100; at most one probe and one completion delayed per sweep"
PROPS["C16"] = P([("sweep/mod.rs", "c16.rs")], ["c16_local", "c16_remote", "c16_schedules", "c16_agree", {"name": "c16_local_deep", "tier": "thorough"}, {"name": "c16_remote_deep", "tier": "thorough"}, {"name": "c16_schedules_deep", "tier": "thorough"}], SWEEP, reals=True)
PROPS["C17"] = P([("sweep/mod.rs", "c16.rs")], ["c16_local", "c16_periodic", "c16_remote", "c17_remote_inactive", {"name": "c16_local_deep", "tier": "thorough"}, {"name": "c16_remote_deep", "tier": "thorough"}], SWEEP, reals=True)
PROPS["C18"] = P([("sweep/mod.rs", "c16.rs")], ["c18_local", "c18_remote", "c18_rate_change", {"name": "c18_local_deep", "tier": "thorough"}, {"name": "c18_remote_deep", "tier": "thorough"}], "one process with up to 3 cells and neighbours on two other processes, 3 timestep levels (2 with remote neighbours; thorough: 4 and 3), every number of rounds done, all times over which cells change from 0.1 to 1000 for a largest step of 64", reals=True)
PROPS["C19"] = P([("sweep/direction/mod.rs", "c19.rs")], [{"name": "c19_tables", "reals": False}, "c19_isotropic", "c19_explicit", "c19_turn", "c19_renumber", "c19_counts"], "all six tables of directions; given directions up to 10 long; up to 3 directions turned to any others, rates up to 100", reals=True)
PROPS["C20"] = P([("sweep/communicator.rs", "c20.rs")], ["c20_send", "c20_send_two", "c20_receive", {"name": "c20_send_deep", "tier": "thorough"}], "3 ranks and 2 (thorough: 3) rounds, 2 ranks and 3 rounds, every completion order")
H = "chemistry/hydrogen_only/mod.rs"
PROPS["C21"] = P([(H, "c21.rs")], ["c21_between", "c21_transparent", "c21_more", "c21_threshold", "c21_budget", "c21_rates", "c21_densities", "c21_positive"], "densities from 1e-6 to 1000 atoms per cubic centimeter, cells from a parsec to 100 kiloparsecs, all ionized fractions, temperatures from 10 to 1e7 kelvin, rates up to 1e6 per second", reals=True)
PROPS["C22"] = P([(H, "c22.rs")], ["c22_steps", "c22_extreme", "c22_update", {"name": "c22_steps_deep", "tier": "thorough"}], "all temperatures from 1 to 1e5 kelvin and ionized fractions; the first 3 (thorough: 5) changes that the rate equations ask for take any value, later ones are zero", reals=True,
  havoc=[(H, "impl Solver > method temperature_change", "vp_c22::change_t(self, timestep)"), (H, "impl Solver > method ionized_fraction_change", "vp_c22::change_x(self, timestep)")])
PROPS["C23"] = P([("simulation_box.rs", "c23.rs")], ["c23_wrap", {"name": "c23_wrap_edges", "reals": False}, "c23_distance", "c23_length", "c23_images", "c23_size"], "boxes with corners up to 100 and sides from 1 to 1000, positions up to four boxes away, all positions inside for distances and images", reals=True)
PROPS["C24"] = P([("quadtree/mod.rs", "c24.rs")], ["c24_tree", "c24_tree_one", "c24_search", "c24_search_any", "c24_search_long", "c24_search_space", "c24_octants", "c24_index", {"name": "c24_tree_deep", "tier": "thorough"}, {"name": "c24_search_deep", "tier": "thorough"}], "up to 3 particles, one of them anywhere along a line (thorough: 4, two of them), trees up to 2 levels deep; searches around every point of a line with every radius up to three quarters of the box, and with three particles and points in space with every radius", reals=True)
PROPS["C25"] = P([("domain/decomposition.rs", "c25.rs")], ["c25_two", "c25_three", "c25_any", "c25_ends", "c25_clustered", "c25_parallel", {"name": "c25_three_deep", "tier": "thorough"}], "up to 4 (thorough: 6) particles at least four keys apart on 2 or 3 processes, up to 3 particles with any keys of 7 on up to 3 processes, the ends of the curve", ints=True)
PROPS["C26"] = P([("domain/decomposition.rs", "c26.rs"), ("domain/exchange_data_plugin.rs", "c26b.rs")], [{"name": "c26_extents", "reals": True}, "c26_outgoing", "c26_ids", {"name": "c26_tree", "reals": True}, "c26_exchange"], "3 processes, each with or without particles; 4 particles with all cuts of the curve; up to 2 particles leaving and 3 arriving with all values of their components")
PROPS["C27"] = P([("voronoi/primitives/triangle.rs", "c27.rs"), ("voronoi/primitives/tetrahedron.rs", "c27b.rs")], ["c27_inside_point", "c27_inside_corner", "c27_center", "c27_circle", "c27_circle_corner", "c27_first", "c27_line", "c27_line_any", "c27_edges", "c27_closest", "c27_area", "c27_tetra_inside", "c27_tetra_inside_corner", "c27_tetra_center", "c27_sphere", "c27_tetra_first", "c27_tetra_distance"], "triangles and tetrahedra of four and three shapes with one corner or the point tested anywhere, at least 1e-6 away from the boundary between the answers", reals=True)
PROPS["C28"] = P([("voronoi/delaunay/mod.rs", "c28.rs")], ["c28_plane_one", "c28_plane_two", "c28_plane_line", "c28_plane_long", "c28_space_one", "c28_space_two", "c28_space_three", "c28_space_four", "c28_space_five", "c28_space_long"], "the last of up to six points in the plane anywhere on one of three lines (of two: anywhere), of up to five points in space on one of three lines, in cubes and in long boxes, in general position by a margin of 1e-6; exact real arithmetic", reals=True,
  havoc=[("voronoi/primitives/tetrahedron.rs", "impl DTetraData for TetrahedronData > method distance_to_point", "+ if crate::voronoi::delaunay::vp_c28::NEAR.load(std::sync::atomic::Ordering::Relaxed) { return 0.0; }")])
NEAR = ("voronoi/primitives/tetrahedron.rs", "impl DTetraData for TetrahedronData > method distance_to_point", "+ if crate::voronoi::delaunay::vp_c28::NEAR.load(std::sync::atomic::Ordering::Relaxed) { return 0.0; }")
PROPS["C29"] = P([("voronoi/delaunay/mod.rs", "c28.rs"), ("voronoi/cell.rs", "c29.rs")], ["c29_plane_across", "c29_plane_up", "c29_plane_more", "c29_plane_contains", "c29_space_five", "c29_space_contains", "c29_cyclic"], "grids of five to seven points in the plane and six in space, one of which moves along a line through the others (not closer than a margin to four points on a circle or five on a sphere), and queries along three lines; rings of up to five items; exact real arithmetic, equalities within 1e-3", reals=True, boxes=10000, havoc=[NEAR])
IN, OUT = "io/input/mod.rs", "io/output/mod.rs"
PROPS["C30"] = P([(OUT, "c30.rs"), (IN, "c30b.rs")], [{"name": "c30_chunks", "reals": False, "ints": True}, "c30_units", "c30_refused", "c30_vectors", "c30_particles", "c30_round_1", "c30_round_2", "c30_round_3", "c30_turns", "c30_timer"],
  "up to 3 processes with up to 5 entries in up to 3 files, up to 3 readers; all values; regions of up to 5 chunks of up to 1e6 entries; up to 8 processes taking turns; 3 steps of the output timer", reals=True,
  havoc=[(OUT, "fn make_snapshot_dir", "let _ = snapshot_dir;"), (IN, "fn get_file_or_all_hdf5_files_in_path_if_dir", "vec![path.to_owned()]")])
PROPS["C31"] = P([("source_systems.rs", "c31.rs"), ("domain/decomposition.rs", "c31d.rs")], ["c31_cells", "c31_three", "c31_owner"], "2 processes with up to 2 sources each at 2 or 3 places, 1 to 3 cells of which one is anywhere on a line or plane; all rates", reals=True)
CO = "cosmology.rs"
PROPS["C32"] = P([(CO, "c32.rs")], ["c32_factor", "c32_redshift", "c32_time", "c32_add", "c32_flat", "c32_search", "c32_later", "c32_spec"], "scale factors from 0.01 to 1, little h from 0.3 to 1, powers from -3 to 3, matter fractions from 0.2 to 0.8; searches of up to 6 steps, with a linear function in place of the time", reals=True,
  havoc=[(CO, "impl CosmologyParams > method time_difference_between_scalefactors", "+ if vp_c32::LINEAR.load(std::sync::atomic::Ordering::Relaxed) { return vp_c32::linear(a0, a1); }")])
PROPS["C33"] = P([("sweep/grid/cartesian.rs", "c33.rs")], ["c33_slab", "c33_uneven", "c33_one", "c33_more", "c33_ranks"], "grids of up to 8 cells in 5 shapes on up to 3 processes; all cell sizes, and sides that are multiples of it up to a relative error of 1e-9", reals=True)
PROPS["C34"] = P([("voronoi/delaunay/mod.rs", "c28.rs"), ("voronoi/constructor/halo_iteration.rs", "c34.rs"), ("voronoi/constructor/parallel/mod.rs", "c34p.rs"), ("domain/decomposition.rs", "c34d.rs")],
  ["c34_ring", "c34_few", "c34_two", "c34_requests", "c34_radius", "c34_again", "c34_wire"], "1 or 2 points of this process and up to 7 of others at fixed places in general position, all initial search radii; searches among 2 particles in one dimension of three with all positions, centres or radii below half a box, 2 processes, 2 rounds", reals=True, havoc=[NEAR])
AR = "arepo_postprocess/"
PROPS["C35"] = P([(AR + "read_grid/mod.rs", "c35.rs"), (AR + "read_grid/id_cache.rs", "c35i.rs")], ["c35_kinds", "c35_requests", "c35_many", {"name": "c35_types", "reals": False}], "3 processes, 4 cells of which 2 are of this process, up to 5 connections; all kinds of one connection at a time, all areas and one component of the normals; boxes that are not periodic", reals=True)
PROPS["C36"] = P([(AR + "unit_reader.rs", "c36.rs"), (AR + "bpass.rs", "c36b.rs"), (AR + "sources.rs", "c36s.rs"), (CO, "c36c.rs"), (IN, "c36i.rs")], ["c36_units", "c36_age", "c36_metallicity", "c36_mass", "c36_table", "c36_one", "c36_stars"], "powers of length, velocity, mass, scale factor and little h from a list of three or four each, all factors; all ages at 5 metallicities, all metallicities at 6 ages, all masses at 6 points; up to 3 stars or wind particles read by up to 3 processes, with a linear function in place of the time", reals=True,
  havoc=[(CO, "impl CosmologyParams > method time_difference_between_scalefactors", "+ if vp_c36c::LINEAR.load(std::sync::atomic::Ordering::Relaxed) { return vp_c36c::linear(a0, a1); }"), (IN, "fn get_file_or_all_hdf5_files_in_path_if_dir", "vec![path.to_owned()]")])
