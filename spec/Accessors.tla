------------------------------ MODULE Accessors ------------------------------
(* Parameter objects, targets and path data as records of named fields, and the *)
(* operations that a user has on them: what each setter changes, what each       *)
(* getter shows, what objects start as, and when two of them are equal.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the fields of each kind, in the order in which they are given, and what they start as
Media == << "nlay", "n1", "n2", "d", "n3" >>
Order == [control |-> << "num_cams", "img_base_name", "cal_img_base_name", "hp_flag", "all_cam_flag", "tiff_flag", "imx",
                         "imy", "pix_x", "pix_y", "chfield" >>,
          media |-> Media,
          sequence |-> << "img_base_name", "first", "last" >>,
          track |-> << "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add", "dsumg",
                       "dn", "dnx", "dny" >>,
          volume |-> << "x_lay", "z_min_lay", "z_max_lay", "cn", "cnx", "cny", "csumg", "eps0", "corrmin" >>,
          recognition |-> << "gvthresh", "discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz" >>,
          target |-> << "pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr" >>,
          path |-> << "x", "prev_frame", "next_frame", "prio", "decis", "finaldecis", "linkdecis", "inlist" >>]
Start(zero, one, none) ==
    [control |-> [f \in {Order.control[i] : i \in 1..11} \ {"img_base_name", "cal_img_base_name", "hp_flag", "tiff_flag"} |-> zero]
                 @@ [img_base_name |-> << >>, cal_img_base_name |-> << >>, hp_flag |-> one, tiff_flag |-> one],
     media |-> [nlay |-> one, n1 |-> one, n2 |-> << one >>, d |-> << zero >>, n3 |-> one],
     sequence |-> [img_base_name |-> << >>, first |-> zero, last |-> zero],
     track |-> [f \in {Order.track[i] : i \in 1..13} |-> zero],
     volume |-> [x_lay |-> << >>, z_min_lay |-> << >>, z_max_lay |-> << >>]
                @@ [f \in {"cn", "cnx", "cny", "csumg", "eps0", "corrmin"} |-> zero],
     recognition |-> [gvthresh |-> << >>, nnmin |-> one, nxmin |-> one, nymin |-> one, cr_sz |-> one]
                @@ none.recognition,
     target |-> [f \in {"x", "y", "n", "nx", "ny", "sumg"} |-> zero] @@ none.target,
     path |-> [x |-> << zero, zero, zero >>, decis |-> << >>, linkdecis |-> << >>, finaldecis |-> zero, inlist |-> 0] @@ none.path]
\* a control object holds the media as well: its fields are listed with "mm." in front
MediaFields == << "mm.nlay", "mm.n1", "mm.n2", "mm.d", "mm.n3" >>
InControl(m) == [f \in {MediaFields[i] : i \in 1..5} |-> m[Media[CHOOSE i \in 1..5 : MediaFields[i] = f]]]

\* what each setter sets, and what each getter shows
Setters == [control |-> [set_image_size |-> << "imx", "imy" >>, set_pixel_size |-> << "pix_x", "pix_y" >>,
                         set_chfield |-> << "chfield" >>, set_hp_flag |-> << "hp_flag" >>,
                         mm_set_n1 |-> << "mm.n1" >>, mm_set_n3 |-> << "mm.n3" >>, mm_set_layers |-> << "mm.n2", "mm.d" >>],
            media |-> [set_n1 |-> << "n1" >>, set_n3 |-> << "n3" >>, set_layers |-> << "n2", "d" >>],
            sequence |-> [set_first |-> << "first" >>, set_last |-> << "last" >>, set_img_base_name |-> << "img_base_name" >>],
            track |-> [set_dsumg |-> << "dsumg" >>, set_dn |-> << "dn" >>, set_dnx |-> << "dnx" >>, set_dny |-> << "dny" >>],
            volume |-> [set_z_min_lay |-> << "z_min_lay" >>, set_z_max_lay |-> << "z_max_lay" >>, set_cn |-> << "cn" >>,
                        set_cnx |-> << "cnx" >>, set_csumg |-> << "csumg" >>, set_eps0 |-> << "eps0" >>,
                        set_corrmin |-> << "corrmin" >>],
            recognition |-> [none |-> << >>],
            target |-> [set_pos |-> << "x", "y" >>, set_pnr |-> << "pnr" >>, set_pixel_counts |-> << "n", "nx", "ny" >>,
                        set_sum_grey_value |-> << "sumg" >>],
            path |-> [none |-> << >>]]
Getters == [control |-> [get_image_size |-> << "imx", "imy" >>, get_pixel_size |-> << "pix_x", "pix_y" >>,
                         get_chfield |-> << "chfield" >>, get_hp_flag |-> << "hp_flag" >>, get_num_cams |-> << "num_cams" >>,
                         get_allCam_flag |-> << "all_cam_flag" >>, get_tiff_flag |-> << "tiff_flag" >>,
                         get_multimedia_par |-> MediaFields, get_multimedia_params |-> MediaFields],
            media |-> [get_nlay |-> << "nlay" >>, get_n1 |-> << "n1" >>, get_n2 |-> << "n2" >>, get_n3 |-> << "n3" >>, get_d |-> << "d" >>],
            sequence |-> [get_first |-> << "first" >>, get_last |-> << "last" >>],
            track |-> [get_dvxmin |-> << "dvxmin" >>, get_dvxmax |-> << "dvxmax" >>, get_dvymin |-> << "dvymin" >>,
                       get_dvymax |-> << "dvymax" >>, get_dvz_min |-> << "dvzmin" >>, get_dvz_max |-> << "dvzmax" >>,
                       get_dangle |-> << "dangle" >>, get_dacc |-> << "dacc" >>, get_add |-> << "add" >>,
                       get_dsumg |-> << "dsumg" >>, get_dn |-> << "dn" >>, get_dnx |-> << "dnx" >>, get_dny |-> << "dny" >>],
            volume |-> [none |-> << >>],
            recognition |-> [get_grey_thresholds |-> << "gvthresh" >>, get_pixel_count_bounds |-> << "nnmin", "nnmax" >>,
                             get_xsize_bounds |-> << "nxmin", "nxmax" >>, get_ysize_bounds |-> << "nymin", "nymax" >>,
                             get_min_sum_grey |-> << "sumg_min" >>],
            target |-> [pos |-> << "x", "y" >>, count_pixels |-> << "n", "nx", "ny" >>, sum_grey_value |-> << "sumg" >>],
            path |-> [none |-> << >>]]

\* effects: the fields named get the values given, everything else stays
Put(obj, fields, vals) == [f \in DOMAIN obj |-> IF \E i \in 1..Len(fields) : fields[i] = f
                                                  THEN vals[CHOOSE i \in 1..Len(fields) : fields[i] = f] ELSE obj[f]]
Shows(obj, fields, vals) == Len(vals) = Len(fields) /\ \A i \in 1..Len(fields) : obj[fields[i]] = vals[i]
\* a further candidate for the next link of a particle: it goes behind those registered before
Candidate(obj, fit, nr) == [obj EXCEPT !.decis = Append(@, fit), !.linkdecis = Append(@, nr), !.inlist = @ + 1]
\* taking the links back leaves where the particle is and what was registered
NoLinks(obj, none) == [obj EXCEPT !.prev_frame = none.prev_frame, !.next_frame = none.next_frame, !.prio = none.prio]
\* two objects are equal when all fields are
Equal(a, b) == \A f \in DOMAIN a : a[f] = b[f]
=============================================================================
