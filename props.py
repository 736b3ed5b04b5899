"""Per-property configuration: functions under contract, harness, bounds, assumptions."""
import os
VERIF = os.path.dirname(os.path.abspath(__file__))
LIBSRCS = '''plCurve vector splines pllmpoly02 plcTopology plwhitten nearest_neighbor symmetries matrix plcRandomPolygon plcRandomSap
plc_dihedrals octrope octmem minrad ordie pdcode pd_isomorphisms pd_container pd_multidx pdcode_testcodes pd_dihedral pd_cyclic
pd_orientation pd_perm polynomials pd_operations pd_crossingmoves pd_sortedbuf pd_tangles pd_splitdiagram pd_deletions pd_pack
pd_invariants pd_simplify hypersimplex_sampling geyer_estimators'''.split()
TRUSTED_BASE = ['clang 18 front end and the LLVM passes always-inline, sroa, simplifycfg',
                'the VC generator /verif/engine (typed memory model, loop-invariant inference checked by induction)',
                'z3 and cvc5', 'the models of libc functions in /verif/engine/builtins_.py']


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


PROPS = {}


def P(pid, **kw):
    PROPS[pid] = kw


P('P01', groups=[dict(srcs=['pdcode.c'], mods=['c_prim'],
                      fns='pd_compose_or pd_or_ok pd_or_cmp pd_build_cross pd_oriented_edge pd_reorient_edge pdint_rotate_left pdint_cross_rdist pd_canonorder_cross'.split())],
  native='n_prim.c', secs=6, bounded=['pd_canonorder_face'], bound='faces of up to 9 edges, random')
P('P02', groups=[dict(srcs=['plcTopology.c', 'pdcode.c'], mods=['c_prim', 'c_lookup', 'c_topo'],
                      fns='pd_overunder_internal pd_overstrand_pos pd_understrand_pos pd_overstrand pd_understrand pd_next_edge pd_previous_edge pdint_next_comp_edge pdint_next_edge_on_face pd_is_alternating pd_linking_number pd_unsigned_linking_number'.split())],
  native='n_topo.c', secs=6, bounded=['pd_interlaced_crossings', 'pd_interlaced_crossings_unsigned'], bound='random diagrams of up to 24 crossings and 4 components')
P('P03', groups=[dict(srcs=['pdcode.c'], mods=['c_prim', 'c_lookup', 'c_topo', 'c_valid'], fns='pd_cross_ok pd_edges_ok pd_faces_ok pd_comps_ok pd_tag_cmp pd_ok pd_or_ok pd_oriented_edge pd_cross_cmp pd_face_cmp'.split())],
  native='n_valid.c', secs=6, fto=200)
P('P04', groups=[dict(srcs=['pdcode.c'], mods=['c_prim', 'c_lookup'], fns='pd_component_and_pos pd_face_and_pos pd_edge_on_face pd_cross_cmp pd_face_cmp pd_component_cmp'.split())],
  native='n_lookup.c', secs=6)
P('P05', groups=[dict(srcs=['pdcode.c'], mods=['c_prim', 'c_store'], fns='pd_code_new pd_code_free pd_copy_newsize pd_copy'.split())],
  native='n_store.c', secs=6, fto=260, bounded=['pd_copy of the 0-crossing diagram (pd_build_unknot)'], bound='the one such diagram')
P('P06', groups=[dict(srcs=['pd_pack.c'], mods=['c_prim', 'c_pack'], fns='pd_packbits pd_idx_bitencode pd_idx_bitdecode pd_packbitstring pd_unpackbitstring'.split())],
  native='n_pack.c', secs=8, bounded=['pd_indexbits (logarithm)', 'pd_crossing_bitencode, pd_crossing_bitdecode', 'pd_pack', 'pd_unpack', 'pd_size'], bound='random diagrams of up to 40 crossings')
P('P07', groups=[dict(srcs=['pd_cyclic.c'], mods=['c_prim', 'c_grp'], fns='pd_new_cyclic pd_copy_cyclic pd_free_cyclic pd_increment_cyclic pd_ncyclics pd_cyclic_ok pd_cyclic_cmp'.split()),
                 dict(srcs=['pd_dihedral.c'], mods=['c_prim', 'c_grp'], fns='pd_new_dihedral pd_copy_dihedral pd_free_dihedral pd_increment_dihedral pd_ndihedrals pd_dihedral_ok pd_dihedral_cmp'.split()),
                 dict(srcs=['pd_orientation.c'], mods=['c_prim', 'c_grp'], fns='pd_new_orientation pd_copy_orientation pd_free_orientation pd_increment_orientation pd_norientations pd_orientation_ok pd_orientation_cmp'.split()),
                 dict(srcs=['pd_perm.c'], mods=['c_prim', 'c_grp'], fns='pd_new_perm pd_copy_perm pd_free_perm pd_increment_perm pd_nperms pd_perm_ok pd_perm_cmp pdint_perm_lex_cmp pd_perms_eq pd_perm_is_e pd_regenerate_pcidx pd_compose_perms pd_stareq_perm pd_inverse_perm'.split()),
                 dict(srcs=['pd_multidx.c'], mods=['c_prim', 'c_multi'], fns='pd_increment_multidx pd_multidx_nvals pd_multidx_ok pd_new_multidx pd_copy_multidx pd_multidx_cmp pd_iterops_eq'.split())],
  native='n_grp.c', secs=6, bounded=['pd_perms_unique, pd_cyclics_unique, pd_dihedrals_unique, pd_orientations_unique, pd_multidxs_unique', 'pd_perm_period', 'pd_free_multidx',
                                     'pd_increment_perm for n up to 6 (every permutation, exhaustively)'], bound='lists of up to 7 elements, permutations of up to 9 letters, indices of up to 5 places, random')
P('P08', groups=[dict(srcs=['pd_container.c'], mods=['c_prim', 'c_cont'], fns='pd_new_container pd_addto_container pd_pop_container pd_container_elt pd_container_nelts pd_container_ok'.split()),
                 dict(srcs=['pd_sortedbuf.c'], mods=['c_prim', 'c_cont'], fns='pd_sortedbuf_contains pd_sortedbuf_insert pd_buf_contains'.split()),
                 dict(srcs=['pd_crossingmoves.c'], mods=['c_prim', 'c_cont'], fns=['pd_idx_cmp'])],
  native='n_cont.c', secs=5, bounded=['pd_free_container'], bound='random histories of up to 200 operations')
P('P09', groups=[dict(srcs=['plCurve.c', 'symmetries.c'], mods=['c_plc', 'c_cst'], fns='plc_new plc_free plc_copy plc_fix_wrap plc_set_color plc_resize_colorbuf plc_drop_component plc_remove_all_constraints'.split())],
  native='n_plc.c', secs=6, bounded=['plc_add_component'], bound='random histories of up to 8 edits on curves of up to 10 components and 9 vertices')
P('P10', groups=[dict(srcs=['plCurve.c', 'symmetries.c'], mods=['c_plc'], fns='plc_num_edges plc_edges plc_num_verts plc_vertex_num plc_cp_num plc_vt_num'.split())],
  native='n_num.c', secs=5)
P('P11', groups=[dict(srcs=['vector.c'], mods=['c_vec'], fns='*')],
  native='n_vec.c', secs=6, bounded='plc_angle_dist plc_dihedral_angle plc_rotate_vect plc_tetrahedron_inradius plc_random_vect plc_perturb_vect'.split(), bound='random and degenerate triples and quadruples of vectors, tolerance 1e-6')
P('P12', groups=[dict(srcs=['plCurve.c', 'vector.c', 'symmetries.c'], mods=['c_plc', 'c_cst', 'c_vec', 'c_geo'], fns='plc_scale plc_translate plc_project plc_random_rotate plc_pfm'.split())],
  native='n_geo.c', secs=6, bounded=['plc_rotate', 'plc_pfm (the angle of the fold; what stays is proved)', 'plc_whitten', 'plc_perturb'], bound='random curves of up to 5 components and 9 vertices, with constraints and colours')
P('P13', groups=[dict(srcs=['plCurve.c', 'vector.c', 'symmetries.c'], mods=['c_plc', 'c_cst', 'c_vec', 'c_geo', 'c_fix'], fns='plc_is_constrained plc_remove_all_constraints Closest_line_point Closest_plane_point plc_fix_cst plc_check_cst'.split())],
  native='n_cst.c', secs=6, bounded='plc_set_fixed plc_constrain_to_line plc_constrain_to_plane plc_unconstrain plc_set_constraint plc_remove_constraint'.split(), bound='random histories of up to 12 edits on curves of up to 4 components and 9 vertices')
P('P14', groups=[dict(srcs=['pdcode.c'], mods=['c_prim', 'c_lookup', 'c_regen'], fns='pdint_find_unassigned_edge pdint_crossmark_new pdint_find_unused_cross pdint_find_edge_in_crossings pd_buf_cmp pdint_next_face_unassigned_edge_or pdint_cross_index_cmp pd_cross_cmp pd_component_cmp pd_face_cmp pdint_cross_rdist pdint_rotate_left pd_reorient_edge pd_oriented_edge'.split()),
                 dict(srcs=['pdcode.c'], mods=['c_prim', 'c_lookup', 'c_topo'], fns='pdint_next_comp_edge pdint_next_edge_on_face'.split())],
  native='n_regen.c', secs=10, bounded=['pd_regenerate_crossings', 'pd_regenerate_edges', 'pd_regenerate_comps', 'pd_regenerate_faces', 'pd_regenerate_hash', 'pd_regenerate', 'pd_canonicalorder, base64encode'], bound='random connected diagrams of up to 24 crossings and 4 components, with all, some or no signs known, edges present or forgotten')
P('P16', groups=[dict(srcs=['plCurve.c', 'vector.c', 'symmetries.c'], mods=['c_plc', 'c_cst', 'c_vec', 'c_geo', 'c_meas'],
                      fns='plc_arclength plc_s plc_subarc_length plc_pointset_diameter plc_mean_tangent plc_center_of_mass plc_gyradius plc_edgelength_stats plc_turning_angle plc_totalcurvature'.split()),
                 dict(srcs=['vector.c'], mods=['c_vec'], fns=['plc_angle', 'plc_distance', 'plc_normalize_vect'])],
  native='n_meas.c', secs=6, bounded=['plc_MR_curvature', 'plc_totaltorsion', 'the floating-point error of the proved sums'], bound='random curves of up to 4 components and 25 vertices, relative tolerance 1e-8')
P('P17', level='exploration', groups=[dict(srcs=['plCurve.c', 'symmetries.c'], mods=['c_plc', 'c_cst'], fns='plc_new plc_free plc_fix_wrap plc_num_verts'.split())],
  native='n_ref.c', secs=8, bounded=['plc_double_verts', 'plc_delete_arc', 'plc_convert_to_spline', 'plc_convert_from_spline', 'plc_sample_spline', 'plc_spline_tangent', 'plc_spline_new', 'plc_spline_free'], bound='random curves of up to 4 components and 12 vertices')
P('P18', level='exploration', groups=[dict(srcs=['plCurve.c', 'symmetries.c'], mods=['c_plc', 'c_cst'], fns='plc_new plc_free plc_fix_wrap plc_is_constrained'.split())],
  native='n_io.c', secs=8, bounded=['plc_write', 'plc_read'], bound='random curves of up to 4 components and 40 vertices, with numbers of widely varying size; files cut at random places')
P('P19', groups=[dict(srcs=['pd_isomorphisms.c'], mods=['c_prim', 'c_grp', 'c_iso'], fns='pdint_in_cyclic_order pd_is_diagram_isotopy pd_edgemap_ok pd_new_edgemap pd_compose_edgemaps'.split())],
  native='n_iso.c', secs=12, bounded=['pd_build_isos, pd_build_map_isomorphisms, pd_build_diagram_isotopies', 'pd_isomorphic, pd_map_isomorphic, pd_diagram_isotopic', 'pd_compose_isos, pd_stareq_iso, pd_copy_iso, pd_iso_period, pd_iso_ok'],
  bound='random diagrams of up to 14 crossings and 3 components against renumbered, mirrored, reversed, re-signed and re-tagged versions; number and structure of the maps for diagrams with at least two crossings')
P('P20', level='exploration', groups=[dict(srcs=['pdcode.c'], mods=['c_prim', 'c_store'], fns='pd_code_new pd_code_free'.split())],
  native='n_pdio.c', secs=8, bounded=['pd_write', 'pd_read, pd_read_err', 'pd_write_KnotTheory, pd_read_KnotTheory', 'pd_addto_pdstor, pd_stor_firstelt, pd_stor_nextelt, pd_stor_stats, pd_search_pdstor_by_isomorphism', 'pd_write_pdstor, pd_read_pdstor, pd_start_incremental_pdstor, pd_addto_incremental_pdstor, pd_finish_incremental_pdstor'],
  bound='random diagrams of up to 30 crossings and 4 components, stores of up to 10 diagrams, one to three random damages per file; the Judy arrays under the store are replaced by sorted lists')
P('P15', level='exploration', groups=[dict(srcs=['plcTopology.c', 'pdcode.c'], mods=['c_prim', 'c_lookup', 'c_topo'], fns='pd_next_edge pd_previous_edge pd_overstrand pd_understrand'.split())],
  native='n_surg.c', secs=10, bounded=['pd_R1_loopdeletion, pd_R1_loop_addition, pd_simplify', 'pd_R2_bigon_elimination, pd_R2_bigon_addition', 'pd_R3_triangle_flip', 'pd_connect_sum', 'pd_reorient_component, pd_renumber_component', 'pd_split_diagram'],
  bound='random diagrams of up to 14 crossings and 4 components, with known, unknown or random signs and random tags; sums of two diagrams of up to 8 crossings; up to 4 pieces')
P('P21', level='exploration', groups=[dict(srcs=['nearest_neighbor.c'], mods=['c_nn'], fns=['exhaustive_nearest_neighbor']), dict(srcs=['vector.c'], mods=['c_vec'], fns=['plc_distance'])],
  native='n_nn.c', secs=8, bounded=['plc_nearest_neighbor (bisection and outward search)', 'plc_nearest_vertex', 'plc_nearest_neighbor_pc_data_free, plc_nearest_vertex_pc_data_free'],
  bound='lists of 1 to 60 and 4998 to 5600 points of eight kinds, curves of up to 4 components, up to six queries with the same saved data')
SYM = ['c_plc', 'c_vec', 'c_geo', 'c_meas', 'c_sym']
P('P22', groups=[dict(srcs=['matrix.c', 'vector.c'], mods=['c_vec', 'c_sym'], fns='plc_matrix_vector_multiply plc_matrix_matrix_multiply plc_matrix_copy plc_build_matrix'.split()),
                 dict(srcs=['symmetries.c', 'vector.c', 'matrix.c', 'plCurve.c'], mods=SYM, fns='plc_identity_matrix plc_rotation_matrix plc_reflection_matrix plc_symmetry_check plc_symmetry_variation_check plc_symmetry_new plc_symmetry_copy plc_compose_symmetries'.split())],
  native='n_sym.c', secs=8, bounded=['plc_build_symmetry', 'plc_rotation_group, plc_reflection_group, plc_coordplanes_reflection_group, plc_symmetry_group_copy', 'plc_symmetrize, plc_symmetrize_variation', 'plc_symmetry_group_check, plc_symmetry_group_variation_check', 'plc_symmetry_free, plc_symmetry_group_free', 'lu_decmp, solve_linear'],
  bound='curves of up to 8 components and 84 vertices built from orbits, exact or perturbed by 0.05, groups of up to 8 elements; matrices with entries up to 3 and determinant above 0.05, tolerance 1e-8')
P('P23', level='exploration', groups=[dict(srcs=['plCurve.c', 'symmetries.c'], mods=['c_plc', 'c_cst'], fns='plc_new plc_free plc_fix_wrap'.split()),
                                      dict(srcs=['plcRandomPolygon.c', 'vector.c'], mods=['c_vec', 'c_rand'], fns=['hopfImap'])],
  native='n_rand.c', secs=8, bounded=['plc_random_closed_polygon, plc_random_open_polygon, plc_random_closed_plane_polygon, plc_random_open_plane_polygon', 'plc_random_equilateral_closed_polygon, plc_random_equilateral_open_polygon', 'plc_random_equilateral_closed_self_avoiding_polygon', 'plc_loop_closure'],
  bound='polygons of up to 60 edges (sometimes 300 or 3000), self-avoiding ones of 5 to 13 edges, closures of components of up to 7 vertices by up to 6 edges; tolerance 1e-9 per edge. Of the distribution only mean squared distances of vertices are checked, over 20000 polygons of 4 to 14 edges, to 7 standard errors')
P('P24', level='exploration', groups=[dict(srcs=['octrope.c'], mods=['c_plc', 'c_cst', 'c_vec', 'c_geo', 'c_meas', 'c_rope'], fns='octrope_curvelength octrope_strut_ends octrope octrope_thickness octrope_ropelength octrope_poca octrope_minradval'.split())],
  native='n_rope.c', secs=10, fto=260, bounded=['octrope_struts', 'octrope_minrad', 'octrope_strutfile_write, octrope_strutfile_read'],
  bound='curves of up to 3 components and 40 vertices, random and near torus curves, of sizes from 0.001 to 100; lists of up to five struts and places in files; relative tolerance 1e-6; pairs of nearly parallel edges and ends within 1e-7 of a limit are allowed either way')
P('P25', level='exploration', groups=[dict(srcs=['plCurve.c', 'vector.c', 'symmetries.c'], mods=['c_plc', 'c_cst', 'c_vec', 'c_geo'], fns='plc_project plc_random_rotate'.split()),
                                      dict(srcs=['plcTopology.c', 'vector.c'], mods=['c_vec', 'c_proj'], fns='segment_side crossing_container_new crossing_container_add crossing_container_free crossing_reference_compare crossing_compare crossing_strand_cmp'.split())],
  native='n_proj.c', secs=12, bounded=['pd_code_from_plCurve'],
  bound='random closed curves of one to three components and up to 20 vertices, with real coordinates or (for projections which are not generic) integer ones; oracle: crossings found independently in another direction, compared by linking numbers and by the Alexander polynomial at four places modulo a prime; in a given direction also the number of crossings and the sum of their signs')
