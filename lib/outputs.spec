# What each function may modify, from its documentation, one line per function:
#   function  k:path ...     k: parameter number; path: fields, ->* following a stored pointer, '-' the whole object
# Everything else reachable from the parameters is input and must come back unchanged.
add_particle  0:.correspond 0:.num_parts 0:.path_info 0:.targets->*->*.tnr
angle_acc  3:- 4:-
assess_new_position  1:- 2:-
ata  1:-
atl  0:-
back_trans_Point  5:-
candsearch_in_pix  8:-
candsearch_in_pix_rest  8:-
compare_addpar  
compare_calib  
compare_control_par  
compare_corres  
compare_exterior  
compare_glass  
compare_interior  
compare_mm_np  
compare_path_info  
compare_sequence_par  
compare_target_par  
compare_targets  
compare_track_par  
compare_volume_par  
consistent_pair_matching  4:-
copy_foundpix_array  0:-
copy_images  1:-
correct_brown_affin  3:- 4:-
correct_brown_affine_exact  3:- 4:-
correspondences  0:.targets->*->*.tnr 5:-
dist_to_flat  3:- 4:-
distort_brown_affin  3:- 4:-
epi_mm  6:- 7:- 8:- 9:-
epi_mm_2D  5:-
fast_box_blur  2:-
fb_next  0:.buf
fb_prev  0:.buf
fb_read_frame_at_end  
fb_write_frame_from_start  
filter_3  1:-
find_candidate  11:-
flat_image_coord  3:- 4:-
flat_to_dist  3:- 4:-
four_camera_matching  3:-
get_mmf_from_mmlut  
img_coord  3:- 4:-
init_mmlut  2:.mmlut
lowpass_3  1:-
match_pairs  0:-
matinv  0:-
matmul  0:-
metric_to_pixel  0:- 1:-
move_along_ray  3:-
multimed_nlay  3:- 4:-
multimed_r_nlay  
nearest_neighbour_pix  
new_control_par  
new_sequence_par  
num_deriv_exterior  0:.ext_par 5:- 6:-
old_metric_to_pixel  0:- 1:-
old_pixel_to_metric  0:- 1:-
orient  0:- 6:-
peak_fit  8:-
pixel_to_metric  0:- 1:-
point_position  4:-
point_to_pixel  0:-
pos3d_in_bounds  
predict  2:-
prepare_image  1:-
raw_orient  0:.added_par 0:.ext_par
ray_tracing  4:- 5:-
read_calblock  0:-
read_calibration  
read_control_par  
read_frame  0:.correspond 0:.num_parts 0:.num_targets->* 0:.path_info 0:.targets
read_man_ori_fix  0:-
read_ori  0:- 1:- 2:- 4:-
read_orient_par  
read_path_frame  0:- 1:-
read_sequence_par  
read_sortgrid_par  
read_target_par  
read_targets  0:-
read_track_par  
read_volume_par  
register_closest_neighbs  9:-
register_link_candidate  0:-
reset_foundpix_array  0:-
reset_links  0:.next 0:.prev 0:.prio
rotation_matrix  0:.dm
search_volume_center_moving  2:-
searchquader  1:- 2:- 3:- 4:-
skew_midpoint  4:-
sort  1:- 2:-
sort_candidates_by_freq  0:-
sorted_candidates_in_volume  
sortgrid  
split  0:-
subtract_img  2:-
subtract_mask  2:-
take_best_candidates  0:- 1:- 4:->*
targ_rec  8:-
three_camera_matching  4:-
track_forward_start  0:.fb->*.buf
trackback_c  0:.fb->*._ring_vec->*->*.correspond 0:.fb->*._ring_vec->*->*.num_parts 0:.fb->*._ring_vec->*->*.path_info 0:.fb->*._ring_vec->*->*.targets->*->*.tnr 0:.fb->*.buf 0:.fb->*.buf->*->*.correspond 0:.fb->*.buf->*->*.num_parts 0:.fb->*.buf->*->*.path_info 0:.fb->*.buf->*->*.targets->*->*.tnr
trackcorr_c_finish  0:.fb->*.buf
trackcorr_c_loop  0:.fb->*._ring_vec->*->*.correspond 0:.fb->*._ring_vec->*->*.num_parts 0:.fb->*._ring_vec->*->*.path_info 0:.fb->*._ring_vec->*->*.targets->*->*.tnr 0:.fb->*.buf 0:.fb->*.buf->*->*.correspond 0:.fb->*.buf->*->*.num_parts 0:.fb->*.buf->*->*.path_info 0:.fb->*.buf->*->*.targets->*->*.tnr 0:.nlinks 0:.npart
trans_Cam_Point  4:.x0 4:.y0 4:.z0 5:- 6:- 7:-
unit_vector  1:-
vec_add  2:-
vec_approx_cmp  
vec_cmp  
vec_copy  0:-
vec_cross  2:-
vec_diff_norm  
vec_dot  
vec_init  0:-
vec_norm  
vec_scalar_mul  2:-
vec_set  0:-
vec_subt  2:-
volumedimension  0:- 1:- 2:- 3:- 4:- 5:-
weighted_dumbbell_precision  
write_calibration  
write_frame  
write_ori  
write_path_frame  
write_target_par  
write_targets  
