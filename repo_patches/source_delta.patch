From 1208441fcb06e8a2c6c2443d807cdc00b5ca86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:23 +0000
Subject: [PATCH 01/37] fix: do not use a wetting front after it was deleted
 while moving fronts

When ET or redistribution would take a front below theta_r the front is deleted,
but its (freed) memory was still read and written to refresh theta/psi.
---
 src/lgar.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..c931004 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1054,6 +1054,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
     double free_drainage_demand = 0.0;
     double actual_ET_demand = *AET_demand_cm;
+    bool is_current_deleted = false; // set if the current wetting front is removed from the list (it must not be used afterwards)
 
     // case to check if the wetting front is at the interface, i.e. deepest wetting front within a layer
     // psi of the layer below is already known/updated, so we that psi to compute the theta of the deepest current layer
@@ -1214,6 +1215,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
         listDeleteFront(current->front_num, head);
+        is_current_deleted = true;
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
@@ -1310,8 +1312,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
       }
 
-      double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      if (!is_current_deleted) {
+	double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
+	current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      }
 
     }
   
-- 
2.43.0


From bc0b0feaab45a58a931584e57738fad73596bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 02/37] fix: keep K(theta) of a wetting front current when psi
 <= 1 cm

The end-of-move refresh skipped fronts with psi <= 1 cm entirely, so a front that
crossed a layer boundary near saturation kept the hydraulic conductivity of another
soil/theta and dz/dt was computed from it.
---
 src/lgar.cxx | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c931004..35cfb3f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1512,21 +1512,23 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   for (int wf=1; wf != listLength(*head); wf++) {
 
-    if (current->psi_cm>1.0){
-      int soil_num_k    = soil_type[current->layer_num];
+    int soil_num_k    = soil_type[current->layer_num];
 
-      double theta_e_k   = soil_properties[soil_num_k].theta_e;
-      double theta_r_k   = soil_properties[soil_num_k].theta_r;
-      double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
-      double vg_m_k      = soil_properties[soil_num_k].vg_m;
-      double vg_n_k      = soil_properties[soil_num_k].vg_n;
+    double theta_e_k   = soil_properties[soil_num_k].theta_e;
+    double theta_r_k   = soil_properties[soil_num_k].theta_r;
+    double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
+    double vg_m_k      = soil_properties[soil_num_k].vg_m;
+    double vg_n_k      = soil_properties[soil_num_k].vg_n;
 
-      double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
+    double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
 
-      double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
-      current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k); 
-      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
-    }
+    double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+
+    if (current->psi_cm>1.0)
+      current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k);
+
+    // K must follow theta also near saturation; it is used to compute dz/dt of the wetting front
+    current->K_cm_per_h = calc_K_from_Se(fmin(Se,1.0), Ksat_cm_per_h_k, vg_m_k);
     current = current->next;
 
   }
-- 
2.43.0


From c01ddb50708a19f7b1d3d621b341166067a23c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:44 +0000
Subject: [PATCH 03/37] fix: pair layer thickness and conductivity of the same
 layer in dz/dt

For fronts in layer 3 or deeper the flow resistance of the overlying layers divided
the thickness of layer k by the conductivity of layer (layer_num-k).
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 35cfb3f..7f3707e 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2480,7 +2480,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From e760450ce3915aa58d94785be53d940cda4c67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:31 +0000
Subject: [PATCH 04/37] fix: read every row of the soil parameter file

Quoted soil names containing a space (e.g. "Sandy-clay loam" in the shipped tables)
broke the row and silently gave that soil the previous soil's parameters; an
uninitialized m was used for theta_wp and a 25-character name overflowed soil_name.
---
 src/lgar.cxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7f3707e..b1193ab 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2296,7 +2296,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int length;
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
-  double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
+  double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
   double m,p,lambda;
 
   // open the file
@@ -2309,10 +2309,22 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    if (strspn(jstr," \t\r\n") == strlen(jstr)) continue; // skip blank lines
+
+    // soil name is either quoted (may contain spaces, e.g., "Sandy-clay loam") or a single word
+    int num_read = sscanf(jstr," \"%29[^\"]\" %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    if (num_read != 6)
+      num_read = sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+
+    if (num_read != 6) {
+      fclose(in_vG_params_fptr);
+      stringstream errMsg;
+      errMsg << "The soil parameters file \'" << vG_param_file_name <<"\' has an invalid row: " << jstr << "\n";
+      throw runtime_error(errMsg.str());
+    }
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
@@ -2327,7 +2339,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].vg_m            = 1-1/vg_n;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
-						       vg_m, vg_n, theta_e, theta_r);
+						       soil_properties[soil].vg_m, vg_n, theta_e, theta_r);
 
     // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
     if (1.0 < vg_n) {
-- 
2.43.0


From 2e903ef56f22944a4c7078b92703df04e1868e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:36 +0000
Subject: [PATCH 05/37] fix: never index soil properties outside the table

A soil type above the table size (or the rows in the file, or below 1) marks the
configuration as invalid but was still used to index soil_properties; layer_soil_type
shorter than layer_thickness, or a missing layer_thickness, read uninitialized memory.
---
 src/lgar.cxx | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b1193ab..38f756b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -231,6 +231,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   bool is_giuh_ordinates_set        = false;
   bool is_soil_z_set                = false;
   bool is_ponded_depth_max_cm_set   = false;
+  int  num_layer_soil_types         = 0;
 
   string soil_params_file;
 
@@ -295,6 +296,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       for (unsigned int layer=1; layer <= vec.size(); layer++)
       	state->lgar_bmi_params.layer_soil_type[layer] = vec[layer-1];
 
+      num_layer_soil_types = vec.size();
       is_layer_soil_type_set = true;
 
       continue;
@@ -544,18 +546,30 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     std::cerr<<"          *****         \n";
   }
 
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if (!is_layer_soil_type_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
     throw runtime_error(errMsg.str());
   }
+
+  if (num_layer_soil_types < state->lgar_bmi_params.num_layers) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' sets fewer layer_soil_type values than layers. \n";
+    throw runtime_error(errMsg.str());
+  }
     
   if(is_soil_params_file_set) {
     //allocate memory to create an array of structures to hold the soils properties data.
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
@@ -567,14 +581,16 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= state->lgar_bmi_params.num_soil_types);
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= max_num_soil_in_file);
-      if (state->lgar_bmi_params.layer_soil_type[layer] > state->lgar_bmi_params.num_soil_types) {
+      if (state->lgar_bmi_params.layer_soil_type[layer] > state->lgar_bmi_params.num_soil_types
+	  || state->lgar_bmi_params.layer_soil_type[layer] > max_num_soil_in_file
+	  || state->lgar_bmi_params.layer_soil_type[layer] < 1) {
 	state->lgar_bmi_params.is_invalid_soil_type = true;
 	if (verbosity.compare("high") == 0) {
 	  std::cerr << "Invalid soil type: "
 		    << state->lgar_bmi_params.layer_soil_type[layer]
 		    <<". Model returns input_precip = ouput_Qout. \n";
 	}
-	break;
+	state->lgar_bmi_params.layer_soil_type[layer] = 0; // no soil properties available, use the (zeroed) entry at index 0
       }
     }
 
@@ -592,12 +608,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     errMsg << "The configuration file \'" << config_file <<"\' does not set soil_params_file. \n";
     throw runtime_error(errMsg.str());
   }
-  
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
 
   if (!is_initial_psi_set) {
     stringstream errMsg;
-- 
2.43.0


From 42304b67ee244294fb7e3305a2b929a2c3a35144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 06/37] fix: pass precipitation volumes through and advance
 time for invalid soil types

The pass-through branch reported the precipitation rate [mm/h] as a depth, which is
only right for hourly forcing, and left the model time unchanged.
---
 src/bmi_lgar.cxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..36a4938 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,20 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // amount of water during this timestep (rate x dt) leaves the domain as discharge
+    double precip_timestep_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_timestep_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +109,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_timestep_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From eb5ebc882e74de9e7bcd538b4eb21b56d836abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:33 +0000
Subject: [PATCH 07/37] fix: sub-timesteps always cover the whole forcing
 interval

When the (adaptive) timestep does not divide the forcing resolution, or exceeds it,
the subcycling loop stopped short, so part of the forcing volume and time was dropped.
---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 36a4938..c14262c 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -205,9 +205,13 @@ Update()
     state->lgar_bmi_params.timestep_h = subtimestep_h;
   }
 
-  state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
+  state->lgar_bmi_params.forcing_interval = int(ceil(state->lgar_bmi_params.forcing_resolution_h/subtimestep_h-1.0e-08)); // subtract 1.0e-08 to prevent truncation error
   subcycles = state->lgar_bmi_params.forcing_interval;
 
+  // the subtimesteps must cover the forcing interval exactly, also when the timestep does not divide the forcing resolution
+  if (fabs(subcycles * subtimestep_h - state->lgar_bmi_params.forcing_resolution_h) > 1.0e-08)
+    subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / subcycles;
+
   if (verbosity.compare("high") == 0) {
     printf("time step size in hours: %lf \n", state->lgar_bmi_params.timestep_h);
   }
-- 
2.43.0


From b457d074cf17d875e7b38950a3eb91f1d4df65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:37 +0000
Subject: [PATCH 08/37] fix: resample GIUH ordinates for any forcing resolution

With forcing coarser than one hour the ordinate array was empty (all surface runoff was
lost and the convolution wrote before its queue); resolutions that do not divide an
hour truncated the hydrograph.
---
 src/lgar.cxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 38f756b..ce73d1c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -646,15 +646,19 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    // map hourly ordinates onto the forcing interval (which can be shorter or longer than an hour)
+    double interval_h = state->lgar_bmi_params.forcing_resolution_h;
+    int num_hours = giuh_ordinates_temp.size() - 1;
 
-    state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
+    state->lgar_bmi_params.num_giuh_ordinates = int(ceil(num_hours/interval_h - 1.0e-08));
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
     
-    for (int i=0; i<giuh_ordinates_temp.size()-1; i++) {
-      for (int j=0; j<factor; j++) {
-        int index = j + i * factor + 1;
-        state->lgar_bmi_params.giuh_ordinates[index] = giuh_ordinates_temp[i+1]/double(factor);
+    for (int index=1; index<=state->lgar_bmi_params.num_giuh_ordinates; index++) {
+      state->lgar_bmi_params.giuh_ordinates[index] = 0.0;
+      for (int i=0; i<num_hours; i++) {
+        double overlap_h = fmin(index*interval_h, i+1.0) - fmax((index-1)*interval_h, i);
+        if (overlap_h > 0.0)
+          state->lgar_bmi_params.giuh_ordinates[index] += giuh_ordinates_temp[i+1] * overlap_h;
       }
     }
     
-- 
2.43.0


From 1f67dadcb52267daf8120c3a65cda0b937b92441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:41 +0000
Subject: [PATCH 09/37] fix: GetGridShape writes the shape of the wetting-front
 grid to its first entry

The grid is reported with rank 1, so a caller's one-element buffer was overrun.
---
 src/bmi_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index c14262c..d5c2cd8 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -832,7 +832,7 @@ GetGridShape(const int grid, int *shape)
   if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+    shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
 }
 
 
-- 
2.43.0


From 95d427ef64cde9ef0be3646fe57b8602c3473907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:07 +0000
Subject: [PATCH 10/37] fix: report soil_depth_layers in meters, one value per
 layer

GetValue("soil_depth_layers") returned the cumulative thickness array from its unused
zeroth entry, in cm although declared in m, and never exposed the deepest layer.
---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 3 ++-
 src/lgar.cxx     | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..d6303b6 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -110,6 +110,7 @@ struct lgar_bmi_parameters
   int    num_wetting_fronts;       // number of wetting fronts
   int    num_cells_temp;           // number of cells of the discretized soil temperature profile
   double *cum_layer_thickness_cm;  // cumulative thickness of layers, allocate memory at run time
+  double *soil_depth_layers_m = NULL; // depth of the bottom of each layer from the surface in meters (bmi output)
   double soil_depth_cm;            // depth of the computational domain (i.e., depth of the last/deepest soil layer from the surface)
   double initial_psi_cm;           // model initial (psi) condition
   double timestep_h;               // model timestep in hours
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index d5c2cd8..47afe78 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -692,6 +692,7 @@ Finalize()
 
   delete [] state->lgar_bmi_params.layer_thickness_cm;
   delete [] state->lgar_bmi_params.cum_layer_thickness_cm;
+  delete [] state->lgar_bmi_params.soil_depth_layers_m;
   delete [] state->lgar_bmi_params.giuh_ordinates;
   delete [] state->lgar_bmi_params.frozen_factor;
   delete state->lgar_bmi_input_params;
@@ -923,7 +924,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers_m;
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index ce73d1c..44642b6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -83,6 +83,11 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.soil_depth_wetting_fronts    = new double[state->lgar_bmi_params.num_wetting_fronts];
   state->lgar_bmi_params.soil_moisture_wetting_fronts = new double[state->lgar_bmi_params.num_wetting_fronts];
 
+  // depth of the bottom of each layer in meters; bmi output
+  state->lgar_bmi_params.soil_depth_layers_m = new double[state->lgar_bmi_params.num_layers];
+  for (int layer=1; layer<=state->lgar_bmi_params.num_layers; layer++)
+    state->lgar_bmi_params.soil_depth_layers_m[layer-1] = state->lgar_bmi_params.cum_layer_thickness_cm[layer] * state->units.cm_to_m;
+
   // initialize array for holding calibratable parameters
   state->lgar_calib_params.theta_e  = new double[state->lgar_bmi_params.num_layers];
   state->lgar_calib_params.theta_r  = new double[state->lgar_bmi_params.num_layers];
-- 
2.43.0


From 56a82393a9ad8f47037a70315e122007e602824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:51 +0000
Subject: [PATCH 11/37] fix: calibrate layers that share a soil type
 independently

Calibratable parameters are per layer but were written to the soil type's entry, so the
deepest layer's values overwrote those of every other layer with the same soil type.
---
 src/bmi_lgar.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 47afe78..78a906d 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -599,6 +599,15 @@ update_calibratable_parameters()
   
   double volstart_before = lgar_calc_mass_bal(state->lgar_bmi_params.cum_layer_thickness_cm, state->head);
 
+  // calibratable parameters are set per layer, so layers sharing a soil type need their own copy of the soil properties
+  struct soil_properties_ *layer_properties = new soil_properties_[state->lgar_bmi_params.num_layers+1]();
+  for (int layer=1; layer<=state->lgar_bmi_params.num_layers; layer++) {
+    layer_properties[layer] = state->soil_properties[state->lgar_bmi_params.layer_soil_type[layer]];
+    state->lgar_bmi_params.layer_soil_type[layer] = layer;
+  }
+  delete [] state->soil_properties;
+  state->soil_properties = layer_properties;
+
   for (int i=0; i<state->lgar_bmi_params.num_wetting_fronts; i++) {//first we update the parameters that depend on soil layer, for each layer
     layer_num  = current->layer_num;
     soil = state->lgar_bmi_params.layer_soil_type[layer_num];
-- 
2.43.0


From 2a522c583727d180385add87b352b6125d4d4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:56 +0000
Subject: [PATCH 12/37] fix: recompute Brooks-Corey parameters after
 calibration

bc_lambda, bc_psib and h_min derive from n and alpha but kept their pre-calibration
values, so the closed-form capillary drive ignored calibrated n and alpha.
---
 include/all.hxx  |  3 +++
 src/bmi_lgar.cxx |  1 +
 src/lgar.cxx     | 47 +++++++++++++++++++++++++++--------------------
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index d6303b6..f67097c 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -275,6 +275,9 @@ extern double lgar_calc_dry_depth(bool use_closed_form_G, int nint, double times
                                   double *cum_layer_thickness_cm, double *frozen_factor,
 				  struct wetting_front* head, struct soil_properties_ *soil_properties);
 
+// computes Brooks-Corey parameters from van Genuchten parameters
+extern void lgar_calc_brooks_corey_params(struct soil_properties_ *soil_properties);
+
 // reads van Genuchten parameters from a file
 extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_types, double wilting_point_psi_cm,
                                     struct soil_properties_ *soil_properties);
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 78a906d..ada18fa 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -631,6 +631,7 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+    lgar_calc_brooks_corey_params(&state->soil_properties[soil]); // these depend on vg_n and vg_alpha
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 44642b6..1edafe8 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2295,6 +2295,32 @@ double lgar_calc_mass_bal(double *cum_layer_thickness, struct wetting_front* hea
   return sum;
 }
 
+// ############################################################################################
+/* Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib,
+   and the effective capillary drive derived from them */
+// ############################################################################################
+extern void lgar_calc_brooks_corey_params(struct soil_properties_ *soil_properties)
+{
+  if (1.0 < soil_properties->vg_n) {
+    double m = 1.0 - 1.0 / soil_properties->vg_n;
+    double p = 1.0 + 2.0 / m;
+    soil_properties->bc_lambda  = 2.0 / (p - 3.0);
+    soil_properties->bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * soil_properties->vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    assert(0.0 < soil_properties->bc_psib_cm);
+  }
+  else {
+    fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
+    //error = TRUE;  // TODO FIXME - what todo in this ccase?
+  }
+
+  /* this is the effective capillary drive after */
+  /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
+  /* psi should not be less than this value.  */
+  double lambda = soil_properties->bc_lambda;
+  soil_properties->h_min_cm = soil_properties->bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+}
+
 // ############################################################################################
 /* The module reads the soil parameters.
    Open file to read in the van Genuchten parameters for standard soil types*/
@@ -2316,7 +2342,6 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
   double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
-  double m,p,lambda;
 
   // open the file
   if((in_vG_params_fptr=fopen(vG_param_file_name,"r"))==NULL) {
@@ -2360,25 +2385,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       soil_properties[soil].vg_m, vg_n, theta_e, theta_r);
 
-    // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
-    if (1.0 < vg_n) {
-      m = 1.0 - 1.0 / vg_n;
-      p = 1.0 + 2.0 / m;
-      soil_properties[soil].bc_lambda  = 2.0 / (p - 3.0);
-      soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
-	(2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
-      assert(0.0 < soil_properties[soil].bc_psib_cm);
-    }
-    else {
-      fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      //error = TRUE;  // TODO FIXME - what todo in this ccase?
-    }
-
-    /* this is the effective capillary drive after */
-    /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
-    /* psi should not be less than this value.  */
-    lambda=soil_properties[soil].bc_lambda;
-    soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+    lgar_calc_brooks_corey_params(&soil_properties[soil]);
     num_soils_in_file++;
     soil++;
 
-- 
2.43.0


From c3c0de92bfaad97c792d13a4edec2116eab8444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:23 +0000
Subject: [PATCH 13/37] fix: stop at the end of the temperature profile when
 averaging layer temperatures

A layer below the last temperature node read one element past soil_temperature_z.
---
 src/lgar.cxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1edafe8..fa1c474 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -843,13 +843,10 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    while (c < lgar_bmi_params.num_cells_temp && lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-
-      if (c == lgar_bmi_params.num_cells_temp) // to ensure we don't access out of bound values
-	break;
     }
 
 
-- 
2.43.0


From c54e8678322fc6f6ff2765254f077c9e11be8f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:27 +0000
Subject: [PATCH 14/37] fix: apply the frozen factor once to K of a new
 surficial front

Ksat already includes the frozen factor of the layer.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fa1c474..ebe145c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2174,7 +2174,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 28fe0d52753aaff49d7d971f725df186d0a2354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:31 +0000
Subject: [PATCH 15/37] fix: infiltration capacity uses the frozen factor of
 the infiltrating layer

Ksat of the layer holding the front that takes up water was scaled with the frozen
factor of the top layer.
---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ebe145c..814ce25 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1998,7 +1998,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -2015,7 +2015,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
-- 
2.43.0


From 76ab55eb3ef77440e9ccc75aaecc2ebcd5508e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:35 +0000
Subject: [PATCH 16/37] fix: soil_z without coupling leaked; coupling without
 soil_z used an unset size

---
 src/lgar.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 814ce25..80c22ab 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -683,14 +683,17 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
+    if (is_soil_z_set) // not used when uncoupled
+      delete [] state->lgar_bmi_params.soil_temperature_z;
+
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
     state->lgar_bmi_params.soil_temperature   = new double[1]();
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
-- 
2.43.0


From 14affd3e6f99b03c566ab2fbaea06310864392ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:59 +0000
Subject: [PATCH 17/37] fix: BMI outputs are defined before the first Update

GetValue of the flux/storage outputs after Initialize returned uninitialized memory.
---
 include/bmi_lgar.hxx | 2 +-
 src/bmi_lgar.cxx     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bmi_lgar.hxx b/include/bmi_lgar.hxx
index b29339a..77aa156 100644
--- a/include/bmi_lgar.hxx
+++ b/include/bmi_lgar.hxx
@@ -162,7 +162,7 @@ private:
     double mass_balance_m;
   };
 
-  struct bmi_unit_conversion bmi_unit_conv;
+  struct bmi_unit_conversion bmi_unit_conv = {}; // no fluxes before the first Update
 };
 
 
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index ada18fa..f37b100 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -39,6 +39,8 @@ Initialize (std::string config_file)
     lgar_initialize(config_file, state);
   }
 
+  bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m; // initial soil storage
+
   num_giuh_ordinates = state->lgar_bmi_params.num_giuh_ordinates;
 
   /* giuh ordinates are static and read in the lgar.cxx, and we need to have a copy of it to pass to
-- 
2.43.0


From b33b0dde1bd9cfc3b566c3098b84da3d123ea585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:03 +0000
Subject: [PATCH 18/37] fix: UpdateUntil advances the model to the requested
 time

It performed a single Update regardless of the time given.
---
 src/bmi_lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index f37b100..5e48508 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -576,7 +576,8 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+  while (this->GetCurrentTime() < t - 1.0e-06)
+    this->Update();
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From 45e5aa2c7808d819012219e069b10b20f5725e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:10 +0000
Subject: [PATCH 19/37] fix: time units followed by trailing characters were
 not recognised

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 80c22ab..5f732b8 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -257,7 +257,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")+1-loc_u); // only the unit, not what follows it
     else
       param_unit = "";
 
-- 
2.43.0


From 4422fed01fcbea8ce7f86b1c8fc947163de87fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:10 +0000
Subject: [PATCH 20/37] fix: final water equals initial water when no Update
 was made

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 5f732b8..078af50 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -127,7 +127,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   // initialize all global mass balance variables to zero
   state->lgar_mass_balance.volprecip_cm              = 0.0;
   state->lgar_mass_balance.volin_cm                  = 0.0;
-  state->lgar_mass_balance.volend_cm                 = 0.0;
+  state->lgar_mass_balance.volend_cm                 = state->lgar_mass_balance.volstart_cm; // no change before the first Update
   state->lgar_mass_balance.volAET_cm                 = 0.0;
   state->lgar_mass_balance.volrech_cm                = 0.0;
   state->lgar_mass_balance.volrunoff_cm              = 0.0;
-- 
2.43.0


From cb2aac95b86dcac301805bdc6a301da2cde183fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:10 +0000
Subject: [PATCH 21/37] fix: reject unknown time units instead of using an
 unset or unconverted value

---
 src/lgar.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 078af50..21579d5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -432,6 +432,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.timestep_h /= 60; // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.timestep_h /= 1.0; // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' has an unknown unit " << param_unit << " for timestep. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.timestep_h > 0);
       is_timestep_set = true;
@@ -456,6 +461,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 3600.0;
       else if (param_unit == "[d]" || param_unit == "[day]")
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 86400.0;
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' has an unknown unit " << param_unit << " for endtime. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.endtime_s > 0);
       is_endtime_set = true;
@@ -477,6 +487,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.forcing_resolution_h /= 60;                 // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.forcing_resolution_h /= 1.0;               // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' has an unknown unit " << param_unit << " for forcing_resolution. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.forcing_resolution_h > 0);
       is_forcing_resolution_set = true;
-- 
2.43.0


From 31bd32eaafbdcc7a067d792352e4485a2afbfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:17 +0000
Subject: [PATCH 22/37] fix: rain on a column at residual moisture was lost and
 aborted the run

When the soil is close to theta_r, theta hardly changes with capillary head, so
the iteration of lgar_theta_mass_balance stopped (no mass change, or head above
1e7 cm) although water had to be added. The infiltrated water was lost and the
local mass balance check aborted the run.
---
 src/lgar.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 21579d5..dcbd62b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2673,11 +2673,14 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     else
       count_no_mass_change = 0;
 
+    // theta hardly changes with psi when the soil is near theta_r; if water has to be added there, keep decreasing psi
+    bool is_too_dry = (new_mass < prior_mass) && (psi_cm_loc > 1.0) && (0.1 * factor > 1.0E-4 * psi_cm_loc);
+
     // break the loop if the mass does not change in the five consecutive iterations.
-    if (count_no_mass_change == break_no_mass_change)
+    if (count_no_mass_change >= break_no_mass_change && !is_too_dry)
       break;
     
-    if (psi_cm_loc > 1e7){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
+    if (psi_cm_loc > 1e7 && new_mass > prior_mass){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
       break;
     }
-- 
2.43.0


From bde9808f29033512126845f14dbd6ddfbc09cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:32 +0000
Subject: [PATCH 23/37] fix: ponded water exactly reaching its limit must still
 infiltrate

When the water left after infiltration equalled ponded_depth_max_cm exactly,
neither branch of lgar_insert_water ran: nothing infiltrated and the pond
exceeded its limit.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index dcbd62b..5be4535 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2109,7 +2109,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 064574291e9fbea8dcc3f0c2b551f3216b0f4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 24/37] fix: listInsertFront looped forever when fronts follow
 the insertion point

The renumbering loop tested link->next, which never changes, so inserting
before existing fronts did not terminate.
---
 src/linked_list.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 0176d41..2ee7dca 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -315,10 +315,9 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
       link->next = previous->next ;
       previous->next = link;
 
-      while(link->next != NULL) { // increment all front numbers
-	current = link->next;
+      current = link->next;
+      while(current != NULL) { // increment all front numbers
 	current->front_num++;
-	previous = current;
 	current = current->next;
       }
 
-- 
2.43.0


From 9ad03a6572f7d9dd512b931cb953c19165e705f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:26 +0000
Subject: [PATCH 25/37] fix: a front exactly on a layer bottom was taken for
 the layer's bottom front

When one front came to rest exactly on a layer bottom and the front above it
overshot that bottom in the same step, the latter crossed through the wrong
front: layers got out of order, the soil type array was read out of bounds or
the mass balance broke.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 5be4535..aa0ba1c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1716,7 +1716,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
     next = current->next;
     next_to_next = current->next->next;
 
-    if (current->depth_cm > cum_layer_thickness_cm[layer_num] && (next->depth_cm == cum_layer_thickness_cm[layer_num])
+    if (current->depth_cm > cum_layer_thickness_cm[layer_num] && next->to_bottom && (next->depth_cm == cum_layer_thickness_cm[layer_num])
 	&& (layer_num!=num_layers) ) {
       
       double current_theta = fmin(theta_e, current->theta);
-- 
2.43.0


From 61bd450a680588c1b04ad0b3dc7fc068f78af11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 26/37] fix: keep the head of a nearly saturated front that
 crosses several layers

theta of a tiny positive head can round to theta_e; recomputing the head from
it gave 0, so that the layers of one front no longer shared its head and the
next step failed its mass balance.
---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index aa0ba1c..1869f3f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1731,7 +1731,8 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       //double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[current->layer_num]; 
 
       double Se = calc_Se_from_theta(current->theta,theta_e, theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      if (current->psi_cm > 1.0) // next to saturation theta may round to theta_e, psi must be kept then (it would become 0)
+	current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
 
       current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m);
       
-- 
2.43.0


From ee0adf5cbff5e3f29829b4d30778601e92da110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 27/37] fix: removing a dry front must not overwrite mobile
 fronts above it

Only the fronts resting on layer bottoms directly above the removed front share
its head. Mobile fronts further up have their own; overwriting them lost their
water.
---
 src/lgar.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1869f3f..db76412 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1899,7 +1899,12 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 	  // now this is the wetting front that was below the dry wetting front
 	  current->psi_cm = calc_h_from_Se(Se_k, vg_a_k, vg_m_k, vg_n_k);
 
-	  struct wetting_front *current_local = *head; //In LGARTO, should be the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one, but *head is fine for LGAR 
+	  // the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one (WFs further up have their own psi)
+	  struct wetting_front *current_local = *head;
+	  for (struct wetting_front *above = *head; above->layer_num < layer_num_k; above = above->next) {
+	    if (above->to_bottom == FALSE)
+	      current_local = above->next;
+	  }
 
 	  // update psi and theta for all wetting fronts above the current wetting front
 	  while (current_local->layer_num < layer_num_k) {
-- 
2.43.0


From 6b2ccfa0e187ba1ec91844e294205b799cd407c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:45 +0000
Subject: [PATCH 28/37] fix: a front crossing a layer with rounding-level
 contrast must not jump above the layer

The depth of a crossing front is the quotient of two moisture differences. When a
front has dried to almost the moisture below it, both are at rounding level and can
have opposite signs (or be 0/0): the front ended above the surface and the run
aborted or went on with a malformed profile.
---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index db76412..ff80644 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1741,7 +1741,8 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
 
       double mbal_correction = overshot_depth * (current_theta - next->theta);
       double mbal_Z_correction = mbal_correction / (theta_new - next_to_next->theta); // this is the new wetting front depth
-      if (isinf(mbal_Z_correction)){//in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
+      if (!isfinite(mbal_Z_correction) || mbal_Z_correction <= 0.0){// differences at rounding level can also be 0 or of opposite sign, which would put the WF at or above the layer top
+        //in some rare cases, due to (very) different shapes of soil water rentention curves in adjacent soil layers near saturation, the WF that crossed a layer bdy can yield a theta value identical to the one below it, resulting in division by 0 and an infinite WF depth. 
         mbal_Z_correction = cum_layer_thickness_cm[layer_num+1]/(1e3);
       }
 
-- 
2.43.0


From d53669dd8df649bf0d41c537917b34d8f4c83c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 29/37] fix: a mobile front in the same layer also separates a
 removed dry front from those above

Fronts above a wetter mobile front of the same layer share the head of that one, not of
the removed front; overwriting them lost water.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ff80644..787077a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1902,7 +1902,7 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 
 	  // the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one (WFs further up have their own psi)
 	  struct wetting_front *current_local = *head;
-	  for (struct wetting_front *above = *head; above->layer_num < layer_num_k; above = above->next) {
+	  for (struct wetting_front *above = *head; above != current; above = above->next) {
 	    if (above->to_bottom == FALSE)
 	      current_local = above->next;
 	  }
-- 
2.43.0


From e20d065006665795d8eac84507314f34eb6381f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 30/37] fix: read configuration files with CRLF line ends

---
 src/bmi_main_lgar.cxx | 1 +
 src/lgar.cxx          | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..c1e3fc6 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -202,6 +202,7 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
     std::string param_key, param_value;
 
     std::getline(file, line);
+    if (!line.empty() && line.back() == '\r') line.pop_back(); // files with CRLF line ends
 
     int loc_eq = line.find("=") + 1;
     param_key = line.substr(0, line.find("="));
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 787077a..db1d57c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -191,6 +191,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     string param_key, param_value, param_unit;
 
     getline(fp, line);
+    if (!line.empty() && line.back() == '\r') line.pop_back(); // files with CRLF line ends
 
     int loc_eq = line.find("=") + 1;
     int loc_u = line.find("[");
@@ -249,6 +250,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     string param_key, param_value, param_unit;
 
     getline(fp, line);
+    if (!line.empty() && line.back() == '\r') line.pop_back(); // files with CRLF line ends
 
     int loc_eq = line.find("=") + 1;
     int loc_u = line.find("[");
-- 
2.43.0


From da935878e30d50569c95ad159b564d588d90fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 31/37] fix: the driver lost the last interval when
 endtime/timestep rounds down

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index c1e3fc6..e0e3ca4 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -77,7 +77,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep + 1.0e-08); // total number of time steps (add 1.0e-08 to prevent truncation error)
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From 59aef022d72a34e2034896509a7c0424a27e5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:38 +0000
Subject: [PATCH 32/37] fix: the last forcing row was read twice when the file
 does not end with a newline

---
 src/bmi_main_lgar.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index e0e3ca4..87f6d94 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -233,8 +233,7 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
   //read first line of strings which contains forcing variables names.
   std::getline(fp, line);
 
-  while (fp) {
-    std::getline(fp, line);
+  while (std::getline(fp, line)) {
     std::stringstream lineStream(line);
     int count = 0;
     while(std::getline(lineStream,cell, ',')) {
-- 
2.43.0


From b88713ccde9d6a6cf4eacfebd83f3fbfb282f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 33/37] fix: the shape of the scalar and temperature grids was
 never reported

---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 5e48508..0a9485a 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -843,10 +843,14 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
+  if (grid == 0 || grid == 1)
+    shape[0] = 1;
+  else if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
     shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
+  else if (grid == 4) // number of cells (discretized temperature profile)
+    shape[0] = this->state->lgar_bmi_params.num_cells_temp;
 }
 
 
-- 
2.43.0


From 86f99b3a01171673a8c7336e1f4a2df412a06081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 34/37] fix: grid spacing and origin were reported from
 uninitialised memory

---
 src/lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index db1d57c..fcb3c58 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -77,6 +77,8 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   InitFromConfigFile(config_file, state);
   state->lgar_bmi_params.shape[0] = state->lgar_bmi_params.num_layers;
   state->lgar_bmi_params.shape[1] = state->lgar_bmi_params.num_wetting_fronts;
+  state->lgar_bmi_params.spacing[0] = 1.0;
+  state->lgar_bmi_params.origin[0]  = 0.0;
 
   // initial number of wetting fronts are same are number of layers
   state->lgar_bmi_params.num_wetting_fronts           = state->lgar_bmi_params.num_layers;
-- 
2.43.0


From 10aae73bd2c389090d117811a00caa4fd4a37caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:15 +0000
Subject: [PATCH 35/37] fix: initialising without a configuration file used an
 unset model state

---
 src/bmi_lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 0a9485a..f258715 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -38,6 +38,8 @@ Initialize (std::string config_file)
     state->state_previous = NULL;
     lgar_initialize(config_file, state);
   }
+  else
+    throw std::runtime_error("no configuration file is given");
 
   bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m; // initial soil storage
 
-- 
2.43.0


From cc09c3d0f778bb106f42a90c15882f7570b8b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:12 +0000
Subject: [PATCH 36/37] fix: an incomplete forcing row shifted precipitation
 against PET instead of being refused

---
 src/bmi_main_lgar.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index 87f6d94..a754e9d 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -234,6 +234,8 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
   std::getline(fp, line);
 
   while (std::getline(fp, line)) {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) continue; // skip blank lines
+
     std::stringstream lineStream(line);
     int count = 0;
     while(std::getline(lineStream,cell, ',')) {
@@ -256,6 +258,12 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
 
     }
 
+    if (count < 3) { // the vectors would not match any more
+      std::stringstream errMsg;
+      errMsg << forcing_file << " has an incomplete row: " << line;
+      throw std::runtime_error(errMsg.str());
+    }
+
   }
 
 
-- 
2.43.0


From 9b4bc58a97728246b47a09e72935da6af6083081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:19 +0000
Subject: [PATCH 37/37] fix: a negative ponded_depth_max set for calibration
 was used as is, unlike a configured one

---
 src/bmi_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index f258715..40cebd7 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -664,7 +664,7 @@ update_calibratable_parameters()
   }
 
   state->lgar_bmi_params.field_capacity_psi_cm = state->lgar_calib_params.field_capacity_psi;
-  state->lgar_bmi_params.ponded_depth_max_cm   = state->lgar_calib_params.ponded_depth_max;
+  state->lgar_bmi_params.ponded_depth_max_cm   = fmax(state->lgar_calib_params.ponded_depth_max, 0.0); // as for the configuration file
 
   if (verbosity.compare("high") == 0 || verbosity.compare("low") == 0) {
     std::cerr<<"----------- Calibratable parameters independent of soil layer (updated values) ----------- \n";
-- 
2.43.0

