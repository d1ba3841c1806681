From 675f9cc9e64b7478c98f0ab823c760aa4e62bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 01/38] fix: cover the whole forcing interval when the timestep
 does not divide it

The number of subcycles was truncated, so with e.g. a 1200 s timestep doubled
by adaptive_timestep (or any fixed timestep that does not divide the forcing
resolution) part of the interval, with its precipitation and PET, was never
simulated and the model clock fell behind the forcing.
---
 src/bmi_lgar.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..3883f1d 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -201,6 +201,13 @@ Update()
   }
 
   state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
+
+  // the subtimesteps must cover the whole forcing interval; shorten them if they don't divide it evenly
+  if (state->lgar_bmi_params.forcing_interval * subtimestep_h < state->lgar_bmi_params.forcing_resolution_h * (1.0 - 1.0e-08)) {
+    state->lgar_bmi_params.forcing_interval++;
+    subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / state->lgar_bmi_params.forcing_interval;
+  }
+
   subcycles = state->lgar_bmi_params.forcing_interval;
 
   if (verbosity.compare("high") == 0) {
-- 
2.43.0


From 7431e7891ab33ba66ce100a3c08212930bd3d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 02/38] fix: keep merging and crossing until the wetting-front
 profile is ordered

A merged front was not compared again with its neighbours, a merge could push
a front past its layer bottom after the crossing pass, and only one front per
step could leave through the lower boundary. The state published after such a
step had fronts out of order or (far) below their layer.
---
 include/all.hxx |  3 +++
 src/lgar.cxx    | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..37d2780 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -304,6 +304,9 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers, double* cum
 						     int *soil_type, double *frozen_factor, struct wetting_front** head,
 						     struct soil_properties_ *soil_properties);
 
+// checks if a wetting front is deeper than the bottom of the layer it is assigned to; called from lgar_move_wetting_fronts
+extern bool lgar_check_layer_boundary_overshoot(double* cum_layer_thickness_cm, struct wetting_front* head);
+
 /* the subroutine allows the deepest wetting front to partially leave the model through the lower boundary if necessary;
    called from lgar_move_wetting_fronts. Currently, fluxes from the lower boundary will always be 0 and this fraction of a
    wetting front will be dealth with in another way */
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..882fb6e 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1468,12 +1468,30 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
 
+  // merging might have pushed a wetting front past the bottom of its layer again, repeat until no front is left behind
+  for (int repeat=0; repeat < num_layers && lgar_check_layer_boundary_overshoot(cum_layer_thickness_cm, *head); repeat++) {
+    lgar_wetting_fronts_cross_layer_boundary(num_layers, cum_layer_thickness_cm, soil_type, frozen_factor,
+					     head, soil_properties);
+
+    is_dry_over_wet_wf = lgar_check_dry_over_wet_wetting_fronts(*head);
+
+    if (is_dry_over_wet_wf)
+      lgar_fix_dry_over_wet_wetting_fronts(&mass_change, cum_layer_thickness_cm, soil_type, head, soil_properties);
+
+    lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+  }
+
   // ************************ CROSS BOUNDARY ********************************
   
   //lower bound
   bottom_boundary_flux_cm += lgar_wetting_front_cross_domain_boundary(cum_layer_thickness_cm[num_layers], soil_type,
 								      frozen_factor, head, soil_properties);
 
+  // more than one wetting front can reach the lower boundary within a timestep
+  for (int repeat=listLength(*head); repeat > 0 && lgar_check_layer_boundary_overshoot(cum_layer_thickness_cm, *head); repeat--)
+    bottom_boundary_flux_cm += lgar_wetting_front_cross_domain_boundary(cum_layer_thickness_cm[num_layers], soil_type,
+									frozen_factor, head, soil_properties);
+
   *volin_cm = bottom_boundary_flux_cm;
   
   // reset current to head to fix any mass balance issues and dry-over-wet wetting fronts conditions
@@ -1618,6 +1636,11 @@ extern void lgar_merge_wetting_fronts(int *soil_type, double *frozen_factor, str
         printf ("Deleting wetting front (after) ... \n");
         listPrint(*head);
       }
+
+      // the merged front might now be past the next front (or behind the previous one), so check all fronts again
+      current = *head;
+      wf = 0;
+      continue;
     }
     
     current = current->next;
@@ -1729,6 +1752,22 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
 }
 
 
+// ############################################################################################
+/*
+  checks if a wetting front is still assigned to a layer although it is deeper than the bottom of that layer
+*/
+// ############################################################################################
+extern bool lgar_check_layer_boundary_overshoot(double *cum_layer_thickness_cm, struct wetting_front* head)
+{
+  for (struct wetting_front *current = head; current != NULL; current = current->next) {
+    if (current->depth_cm > cum_layer_thickness_cm[current->layer_num])
+      return true;
+  }
+
+  return false;
+}
+
+
 // ############################################################################################
 /*
   the function lets wetting fronts of a sufficient depth interact with the lower boundary; called from lgar_move_wetting_fronts.
-- 
2.43.0


From dbdc9ac5bf9fcfb9bdb5d0ce8ebc639376385b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:02 +0000
Subject: [PATCH 03/38] fix: close the water balance with the right sign when
 theta is stuck near theta_r

If the psi search stops before all added water is taken up, the shortfall was
subtracted from AET instead of added, which doubled the error (negative AET,
abort in Update).
---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 882fb6e..7991045 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2673,9 +2673,9 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
   //There is a rare case where mass balance closure would require that theta<theta_r. 
   //However, the above loop can never increase psi to the point where theta<theta_r, because theta must always be between theta_r and theta_r, because of the van Genuchten model (calc_theta_from_h).
   //If we get to the case where theta<theta_r would be necessary for mass balance closure, then the above loop will break before delta_mass <= tolerance.
-  //In this rare case, the remaining mass balance error is put into AET. 
+  //In this rare case, the remaining mass balance error is put into AET (with its sign; close to theta_r the loop can also break before all of the added water is taken up).
   if ((delta_mass > tolerance) && (!wanted_to_saturate_flag)){//the second condition is necessary because count_no_mass_change == break_no_mass_change in the loop above will trigger when the model approaches saturation; in this event the extra water should go into runoff (handled eslewhere), because the soil saturates, rather than AET
-    *AET_demand_cm = *AET_demand_cm - fabs(delta_mass - tolerance);
+    *AET_demand_cm = *AET_demand_cm - (new_mass - prior_mass);
   }
 
   if ( (theta>=soil_properties[soil_num].theta_e) && (psi_cm_loc!=0.0) ){
-- 
2.43.0


From 652de98c2d9dd7a6479d786f70e8be0a439b81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:02 +0000
Subject: [PATCH 04/38] fix: read quoted soil names whole and reject incomplete
 rows of the soil parameter file

---
 src/lgar.cxx | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7991045..756fcd4 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2324,9 +2324,10 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   // local vars
   FILE *in_vG_params_fptr = NULL;
   char jstr[256];
-  char soil_name[30];
+  char soil_name[256];
   // bool error;
   int length;
+  int num_fields;
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
   double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
@@ -2342,14 +2343,29 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    if (strspn(jstr," \t\r\n") == strlen(jstr)) // skip blank lines
+      continue;
+
+    // soil names in quotes can contain spaces (e.g., "Sandy-clay loam")
+    num_fields = sscanf(jstr," \"%255[^\"]\" %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    if (num_fields == 0)
+      num_fields = sscanf(jstr,"%255s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+
+    if (num_fields != 6) {
+      stringstream errMsg;
+      errMsg << "The soil parameter file \'" << vG_param_file_name <<"\' has an incomplete row: "<< jstr <<" \n";
+      fclose(in_vG_params_fptr);
+      throw runtime_error(errMsg.str());
+    }
+
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
-      printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
-	     vG_param_file_name);
-      printf("Program stopped.\n");
-      exit(0);
+    if(length>=MAX_SOIL_NAME_CHARS) {
+      stringstream errMsg;
+      errMsg << "While reading vG soil parameter file: "<< vG_param_file_name
+	     <<", soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS \n";
+      fclose(in_vG_params_fptr);
+      throw runtime_error(errMsg.str());
     }
 
     strcpy(soil_properties[soil].soil_name,soil_name);
@@ -2357,7 +2373,8 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_e         = theta_e;
     soil_properties[soil].vg_alpha_per_cm = vg_alpha_per_cm; // cm^(-1)
     soil_properties[soil].vg_n            = vg_n;
-    soil_properties[soil].vg_m            = 1-1/vg_n;
+    vg_m                                  = 1-1/vg_n;
+    soil_properties[soil].vg_m            = vg_m;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       vg_m, vg_n, theta_e, theta_r);
@@ -2389,6 +2406,13 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
       break;
   }
 
+  if (ferror(in_vG_params_fptr)) {
+    stringstream errMsg;
+    errMsg << "The soil parameter file \'" << vG_param_file_name <<"\' could not be read. \n";
+    fclose(in_vG_params_fptr);
+    throw runtime_error(errMsg.str());
+  }
+
   fclose(in_vG_params_fptr);      // close the file, we're done with it
 
   return num_soils_in_file;
-- 
2.43.0


From 52e6a7e5e531b3826e390b0c21d53ec97e12826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:49 +0000
Subject: [PATCH 05/38] fix: fail initialization on an unreadable config file
 or one that leaves layers without thickness or soil type

---
 src/lgar.cxx | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 756fcd4..5a05c96 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -232,6 +232,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   bool is_soil_z_set                = false;
   bool is_ponded_depth_max_cm_set   = false;
 
+  int num_layer_soil_types          = 0;
+
   string soil_params_file;
 
   // a temporary array to store the original (hourly based) giuh values
@@ -295,6 +297,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       for (unsigned int layer=1; layer <= vec.size(); layer++)
       	state->lgar_bmi_params.layer_soil_type[layer] = vec[layer-1];
 
+      num_layer_soil_types   = vec.size();
       is_layer_soil_type_set = true;
 
       continue;
@@ -522,6 +525,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     }
   }
 
+  if (fp.bad()) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' could not be read. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   fp.close();
 
   if (verbosity.compare("high") == 0) {
@@ -544,11 +553,23 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     std::cerr<<"          *****         \n";
   }
 
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if (!is_layer_soil_type_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
     throw runtime_error(errMsg.str());
   }
+
+  if (num_layer_soil_types < state->lgar_bmi_params.num_layers) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' sets layer_soil_type for fewer layers than layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
     
   if(is_soil_params_file_set) {
     //allocate memory to create an array of structures to hold the soils properties data.
@@ -593,12 +614,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
   
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if (!is_initial_psi_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set initial_psi. \n";
-- 
2.43.0


From 27d1eb9a69501f4e86dccb4658ee85767d51e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:08 +0000
Subject: [PATCH 06/38] fix: never use soil properties that the soil parameter
 file does not provide

---
 src/lgar.cxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 5a05c96..ad014d5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -576,8 +576,13 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
+    int max_layer_soil_type = num_soil_types;  // layers can have invalid soil types, i.e., beyond num_soil_types
+
+    for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++)
+      max_layer_soil_type = std::max(max_layer_soil_type, state->lgar_bmi_params.layer_soil_type[layer]);
+
+    state->soil_properties = new soil_properties_[max_layer_soil_type+1]();
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
     int max_num_soil_in_file = lgar_read_vG_param_file(soil_params_file.c_str(), num_soil_types,
@@ -595,7 +600,13 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 		    << state->lgar_bmi_params.layer_soil_type[layer]
 		    <<". Model returns input_precip = ouput_Qout. \n";
 	}
-	break;
+      }
+      else if (state->lgar_bmi_params.layer_soil_type[layer] < 1 ||
+	       state->lgar_bmi_params.layer_soil_type[layer] > max_num_soil_in_file) {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' sets layer_soil_type to "
+	       << state->lgar_bmi_params.layer_soil_type[layer] <<", which is not in the soil parameter file. \n";
+	throw runtime_error(errMsg.str());
       }
     }
 
-- 
2.43.0


From 14e0fe284e468cbf8fe01892be64c8b4f922d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 07/38] fix: pass the precipitation of the whole forcing
 interval through invalid soils and advance their clock

---
 src/bmi_lgar.cxx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 3883f1d..16beeef 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,23 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    assert (state->lgar_bmi_input_params->precipitation_mm_per_h >= 0.0);
+
+    // the whole forcing interval passes; precipitation is a rate, so convert it to an amount [mm]
+    double precip_timestep_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+    state->lgar_bmi_params.timesteps ++;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_timestep_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +112,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_timestep_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From cfc0d662795c349f015ce5269b74e5ac638698d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:08 +0000
Subject: [PATCH 08/38] fix: start every model instance from defined values

---
 include/bmi_lgar.hxx | 2 +-
 src/bmi_lgar.cxx     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmi_lgar.hxx b/include/bmi_lgar.hxx
index b29339a..b06175f 100644
--- a/include/bmi_lgar.hxx
+++ b/include/bmi_lgar.hxx
@@ -30,7 +30,7 @@ class NotImplemented : public std::logic_error {
 class BmiLGAR : public bmi::Bmi {
 public:
   ~BmiLGAR();
-  BmiLGAR():giuh_ordinates(nullptr), giuh_runoff_queue(nullptr) {
+  BmiLGAR():giuh_ordinates(nullptr), giuh_runoff_queue(nullptr), bmi_unit_conv() {
     this->input_var_names[0] = "precipitation_rate";
     this->input_var_names[1] = "potential_evapotranspiration_rate";
     this->input_var_names[2] = "soil_temperature_profile";
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 16beeef..3e81a5f 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -33,7 +33,7 @@ void BmiLGAR::
 Initialize (std::string config_file)
 {
   if (config_file.compare("") != 0 ) {
-    this->state = new model_state;
+    this->state = new model_state();
     state->head = NULL;
     state->state_previous = NULL;
     lgar_initialize(config_file, state);
-- 
2.43.0


From 650875c374db583abcc87bae9026574c23dc977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:11 +0000
Subject: [PATCH 09/38] fix: report the shape of the one-dimensional
 wetting-front grid within its rank

---
 src/bmi_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 3e81a5f..55a0b7b 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -838,7 +838,7 @@ GetGridShape(const int grid, int *shape)
   if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+    shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
 }
 
 
-- 
2.43.0


From a87eaf99a6ee2fa23736cb55b94fbc12700335fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:15 +0000
Subject: [PATCH 10/38] fix: reject forcing resolutions the hourly GIUH
 ordinates cannot be routed with

---
 src/lgar.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ad014d5..ae529f9 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -662,7 +662,13 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h+1.0e-08); // add 1.0e-08 to prevent truncation error
+
+    if (factor < 1) {
+      stringstream errMsg;
+      errMsg << "The configuration file \'" << config_file <<"\' sets forcing_resolution longer than one hour, giuh_ordinates are hourly. \n";
+      throw runtime_error(errMsg.str());
+    }
 
     state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-- 
2.43.0


From f5add8640d45282947ded41b36d67f0be16c4d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:18 +0000
Subject: [PATCH 11/38] fix: check soil_z before using it and release it when
 it is not used

---
 src/lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ae529f9..9f67d84 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -696,16 +696,18 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
     state->lgar_bmi_params.soil_temperature   = new double[1]();
+    if (is_soil_z_set)
+      delete [] state->lgar_bmi_params.soil_temperature_z;
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
     state->lgar_bmi_params.num_cells_temp     = 1;
   }
-- 
2.43.0


From ed2513c719295a8089cf73efb53db164738373b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:41 +0000
Subject: [PATCH 12/38] fix: calibrate layers that share a soil type
 independently of each other

---
 src/bmi_lgar.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 55a0b7b..382f6ff 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -605,6 +605,17 @@ update_calibratable_parameters()
   
   double volstart_before = lgar_calc_mass_bal(state->lgar_bmi_params.cum_layer_thickness_cm, state->head);
 
+  // calibratable parameters are set per layer and layers can share a soil type, so give each layer its own soil properties
+  struct soil_properties_ *layer_soil_properties = new soil_properties_[state->lgar_bmi_params.num_layers+1]();
+
+  for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
+    layer_soil_properties[layer] = state->soil_properties[state->lgar_bmi_params.layer_soil_type[layer]];
+    state->lgar_bmi_params.layer_soil_type[layer] = layer;
+  }
+
+  delete [] state->soil_properties;
+  state->soil_properties = layer_soil_properties;
+
   for (int i=0; i<state->lgar_bmi_params.num_wetting_fronts; i++) {//first we update the parameters that depend on soil layer, for each layer
     layer_num  = current->layer_num;
     soil = state->lgar_bmi_params.layer_soil_type[layer_num];
-- 
2.43.0


From f58b78c2431c95e3639797388cf51b4b5a1586c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:32 +0000
Subject: [PATCH 13/38] fix: derive Brooks-Corey parameters from the calibrated
 van Genuchten parameters

---
 include/all.hxx  |  1 +
 src/bmi_lgar.cxx |  1 +
 src/lgar.cxx     | 47 +++++++++++++++++++++++++++--------------------
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index 37d2780..efe5627 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -275,6 +275,7 @@ extern double lgar_calc_dry_depth(bool use_closed_form_G, int nint, double times
 				  struct wetting_front* head, struct soil_properties_ *soil_properties);
 
 // reads van Genuchten parameters from a file
+extern void lgar_calc_bc_params(struct soil_properties_ *soil);
 extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_types, double wilting_point_psi_cm,
                                     struct soil_properties_ *soil_properties);
 
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 382f6ff..243e566 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -639,6 +639,7 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+    lgar_calc_bc_params(&state->soil_properties[soil]);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 9f67d84..10220b1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2343,6 +2343,32 @@ double lgar_calc_mass_bal(double *cum_layer_thickness, struct wetting_front* hea
   return sum;
 }
 
+// ############################################################################################
+/* Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
+   and the minimum effective capillary drive */
+// ############################################################################################
+extern void lgar_calc_bc_params(struct soil_properties_ *soil)
+{
+  if (1.0 < soil->vg_n) {
+    double m = 1.0 - 1.0 / soil->vg_n;
+    double p = 1.0 + 2.0 / m;
+    soil->bc_lambda  = 2.0 / (p - 3.0);
+    soil->bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * soil->vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    assert(0.0 < soil->bc_psib_cm);
+  }
+  else {
+    fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
+    //error = TRUE;  // TODO FIXME - what todo in this ccase?
+  }
+
+  /* this is the effective capillary drive after */
+  /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
+  /* psi should not be less than this value.  */
+  double lambda  = soil->bc_lambda;
+  soil->h_min_cm = soil->bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+}
+
 // ############################################################################################
 /* The module reads the soil parameters.
    Open file to read in the van Genuchten parameters for standard soil types*/
@@ -2365,7 +2391,6 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
   double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
-  double m,p,lambda;
 
   // open the file
   if((in_vG_params_fptr=fopen(vG_param_file_name,"r"))==NULL) {
@@ -2413,25 +2438,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       vg_m, vg_n, theta_e, theta_r);
 
-    // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
-    if (1.0 < vg_n) {
-      m = 1.0 - 1.0 / vg_n;
-      p = 1.0 + 2.0 / m;
-      soil_properties[soil].bc_lambda  = 2.0 / (p - 3.0);
-      soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
-	(2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
-      assert(0.0 < soil_properties[soil].bc_psib_cm);
-    }
-    else {
-      fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      //error = TRUE;  // TODO FIXME - what todo in this ccase?
-    }
-
-    /* this is the effective capillary drive after */
-    /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
-    /* psi should not be less than this value.  */
-    lambda=soil_properties[soil].bc_lambda;
-    soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+    lgar_calc_bc_params(&soil_properties[soil]);
     num_soils_in_file++;
     soil++;
 
-- 
2.43.0


From 9a44c470fa2424f683f8a60843779f0a6827e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:23 +0000
Subject: [PATCH 14/38] fix: apply the frozen factor of the layer the water
 moves in, and only once

---
 src/lgar.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 10220b1..eab5523 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2049,7 +2049,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -2066,7 +2066,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
@@ -2225,7 +2225,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 65c03104e62c308b65c60c4513faaf17e04b80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:42 +0000
Subject: [PATCH 15/38] fix: keep the conductivity of nearly saturated wetting
 fronts up to date

---
 src/lgar.cxx | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index eab5523..c82ef8a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1560,21 +1560,22 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   for (int wf=1; wf != listLength(*head); wf++) {
 
-    if (current->psi_cm>1.0){
-      int soil_num_k    = soil_type[current->layer_num];
+    int soil_num_k    = soil_type[current->layer_num];
 
-      double theta_e_k   = soil_properties[soil_num_k].theta_e;
-      double theta_r_k   = soil_properties[soil_num_k].theta_r;
-      double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
-      double vg_m_k      = soil_properties[soil_num_k].vg_m;
-      double vg_n_k      = soil_properties[soil_num_k].vg_n;
+    double theta_e_k   = soil_properties[soil_num_k].theta_e;
+    double theta_r_k   = soil_properties[soil_num_k].theta_r;
+    double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
+    double vg_m_k      = soil_properties[soil_num_k].vg_m;
+    double vg_n_k      = soil_properties[soil_num_k].vg_n;
 
-      double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
+    double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
 
-      double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
-      current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k); 
-      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
-    }
+    double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+
+    if (current->psi_cm>1.0)
+      current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k);
+
+    current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k); // K is needed near saturation too
     current = current->next;
 
   }
-- 
2.43.0


From bc9b8bb4a276a3c41446804fd4bbe003b106f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:04 +0000
Subject: [PATCH 16/38] fix: pair each layer's thickness with its own
 conductivity in the front velocity

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c82ef8a..64ac3ec 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2579,7 +2579,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From 2ef91922fc9525d06377986582725aa90bd0056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 17/38] fix: let UpdateUntil advance to the requested time

---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 243e566..fa4e6e1 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -580,7 +580,11 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+
+  // advance by whole forcing intervals to the first interval end at (or, within roundoff, past) t
+  do {
+    this->Update();
+  } while (this->GetCurrentTime() < t - 1.0E-6 * this->GetTimeStep());
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From 83ad95923764dbd29e71020fb26c0c57e5003382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:09 +0000
Subject: [PATCH 18/38] fix: publish the depths of the layer bottoms, in
 metres, as soil_depth_layers

---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 3 ++-
 src/lgar.cxx     | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index efe5627..84c61d5 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -124,6 +124,7 @@ struct lgar_bmi_parameters
 					   output to other models (e.g. soil freeze-thaw) */
   double *soil_depth_wetting_fronts;    /* 1D array of absolute depths of the wetting fronts [meters];
 					    output to other models (e.g. soil freeze-thaw) */
+  double *soil_depth_layers;             // 1D array of depths of the layer bottoms [meters]; bmi output to other models
   double *soil_temperature;              // 1D array of soil temperature [K]; bmi input for coupling lasam to soil freeze thaw model
   double *soil_temperature_z;            /* 1D array of soil discretization associated with temperature profile [m];
 					    depth from the surface in meters */
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index fa4e6e1..8dd92d8 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -702,6 +702,7 @@ Finalize()
   delete [] state->lgar_bmi_params.soil_depth_wetting_fronts;
   delete [] state->lgar_bmi_params.soil_moisture_wetting_fronts;
 
+  delete [] state->lgar_bmi_params.soil_depth_layers;
   delete [] state->lgar_bmi_params.soil_temperature;
   delete [] state->lgar_bmi_params.soil_temperature_z;
   delete [] state->lgar_bmi_params.layer_soil_type;
@@ -945,7 +946,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers;
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 64ac3ec..a354b35 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -83,6 +83,11 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.soil_depth_wetting_fronts    = new double[state->lgar_bmi_params.num_wetting_fronts];
   state->lgar_bmi_params.soil_moisture_wetting_fronts = new double[state->lgar_bmi_params.num_wetting_fronts];
 
+  // depths of the layer bottoms (used for model coupling)
+  state->lgar_bmi_params.soil_depth_layers = new double[state->lgar_bmi_params.num_layers];
+  for (int layer=1; layer<=state->lgar_bmi_params.num_layers; layer++)
+    state->lgar_bmi_params.soil_depth_layers[layer-1] = state->lgar_bmi_params.cum_layer_thickness_cm[layer] * state->units.cm_to_m;
+
   // initialize array for holding calibratable parameters
   state->lgar_calib_params.theta_e  = new double[state->lgar_bmi_params.num_layers];
   state->lgar_calib_params.theta_r  = new double[state->lgar_bmi_params.num_layers];
-- 
2.43.0


From a5a52260ce752b805139956368bc644f1f9241b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 19/38] fix: never run the standalone program on repeated,
 shifted or partially read forcing rows

---
 src/bmi_main_lgar.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..d9fcefd 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -232,8 +232,7 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
   //read first line of strings which contains forcing variables names.
   std::getline(fp, line);
 
-  while (fp) {
-    std::getline(fp, line);
+  while (std::getline(fp, line)) {
     std::stringstream lineStream(line);
     int count = 0;
     while(std::getline(lineStream,cell, ',')) {
@@ -256,8 +255,19 @@ ReadForcingData(std::string config_file, std::vector<std::string>& time, std::ve
 
     }
 
+    if (count != 0 && count < 3) {
+      std::stringstream errMsg;
+      errMsg << "incomplete row in the forcing file " << forcing_file << ": " << line;
+      throw std::runtime_error(errMsg.str());
+    }
+
   }
 
+  if (fp.bad()) {
+    std::stringstream errMsg;
+    errMsg << "error while reading the forcing file " << forcing_file;
+    throw std::runtime_error(errMsg.str());
+  }
 
 }
 
-- 
2.43.0


From 3dc84fd0e0bed95c2c2fe82e04e0a487b3cca89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:25 +0000
Subject: [PATCH 20/38] fix: report output files the standalone program could
 not write

---
 src/bmi_main_lgar.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index d9fcefd..606da37 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -28,6 +28,7 @@ void ReadForcingData(std::string config_file, std::vector<std::string>& time, st
 
 
 #define SUCCESS 0
+#define FAILURE 1
 
 int main(int argc, char *argv[])
 {
@@ -99,6 +100,11 @@ int main(int argc, char *argv[])
     outdata_fptr = fopen("data_variables.csv", "w");  // write output variables (e.g. infiltration, storage etc.) to this file pointer
     outlayer_fptr = fopen("data_layers.csv", "w");    // write output layers to this file pointer
 
+    if (outdata_fptr == NULL || outlayer_fptr == NULL) {
+      printf("Error: cannot open the output files data_variables.csv and data_layers.csv for writing.\n");
+      return FAILURE;
+    }
+
     // write heading (variable names)
     fprintf(outdata_fptr,"Time,");
     for (int j = 0; j < num_output_var; j++) {
@@ -163,9 +169,11 @@ int main(int argc, char *argv[])
 
   // do final mass balance ( inside Finalize() ) and finish the simulation
   model_state.Finalize();
+  bool is_output_written = true;
   if (outdata_fptr) {
-    fclose(outdata_fptr);
-    fclose(outlayer_fptr);
+    is_output_written = !ferror(outdata_fptr) && !ferror(outlayer_fptr);
+    is_output_written = (fclose(outdata_fptr) == 0) && is_output_written;
+    is_output_written = (fclose(outlayer_fptr) == 0) && is_output_written;
   }
 
   end_time = clock();
@@ -175,6 +183,11 @@ int main(int argc, char *argv[])
   std::cout<<setprecision(4);
   std::cout<<"Time                      =   "<< elapsed <<" sec \n";
 
+  if (!is_output_written) {
+    printf("Error: the output files could not be written completely.\n");
+    return FAILURE;
+  }
+
   return SUCCESS;
 }
 
-- 
2.43.0


From c15b8f9ec8841e251829ef5dbfea95daee51c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:27 +0000
Subject: [PATCH 21/38] fix: do not lose the standalone program's last time
 step to roundoff

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index 606da37..ee14512 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -78,7 +78,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep + 1.0E-6); // total number of time steps (the last one is not lost to roundoff)
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From dc2088905f12cd8c261afd2fb8ef806969e0be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:14 +0000
Subject: [PATCH 22/38] fix: do not touch a wetting front after deleting it

---
 src/lgar.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index a354b35..edfbe63 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1253,6 +1253,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
         listDeleteFront(current->front_num, head);
+        current = NULL; // the front is gone, and must not be updated below
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
@@ -1349,8 +1350,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
       }
 
-      double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      if (current != NULL) {
+        double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
+        current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      }
 
     }
   
-- 
2.43.0


From ebaf61c1f479adec11189c52c241946a16d776cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:24 +0000
Subject: [PATCH 23/38] fix: reduce evapotranspiration, not percolation, when a
 saturated column holds more water than its balance

When the depth search for a saturated column gives up, the wetting fronts may
hold more water than the balance allows. The error was added to AET without its
sign (AET above PET) and twice that amount was then drawn through the lower
boundary as negative percolation.
---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index edfbe63..dbdab14 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1410,7 +1410,8 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
     iter++;
     if (iter>1e4) {
       break_flag = TRUE;
-      *AET_demand_cm = *AET_demand_cm + mass_balance_error;
+      // signed: if the wetting fronts hold more water than they should, less of it was evapotranspired
+      *AET_demand_cm = fmax(*AET_demand_cm + (mass_timestep - current_mass), 0.0);
       actual_ET_demand = *AET_demand_cm;
       break;
     }
-- 
2.43.0


From c751351627b28f0f4d2c7da0e180f3057c7bdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:19 +0000
Subject: [PATCH 24/38] fix: let a column that dried out to the residual
 moisture take up water again

Far beyond the wilting point the head search made steps too small to change the
mass, gave up, and put all infiltrated water into AET, exceeding PET.
---
 src/lgar.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index dbdab14..698e2d2 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2729,8 +2729,16 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
       count_no_mass_change = 0;
 
     // break the loop if the mass does not change in the five consecutive iterations.
-    if (count_no_mass_change == break_no_mass_change)
-      break;
+    if (count_no_mass_change == break_no_mass_change) {
+      // far beyond the wilting point the retention curve is so flat that such steps do not change the mass at all;
+      // a dried-out soil that receives water must be able to leave this range
+      if (new_mass < prior_mass && psi_cm_loc > 1.0E+04) {
+	psi_cm_loc *= 0.1;
+	count_no_mass_change = 0;
+      }
+      else
+	break;
+    }
     
     if (psi_cm_loc > 1e7){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
-- 
2.43.0


From 404a103492bcb535964f4d54a35ac402dec2bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 25/38] fix: let water a saturated column cannot hold percolate
 instead of raising AET above PET

---
 src/lgar.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 698e2d2..1f3c271 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1410,8 +1410,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
     iter++;
     if (iter>1e4) {
       break_flag = TRUE;
-      // signed: if the wetting fronts hold more water than they should, less of it was evapotranspired
-      *AET_demand_cm = fmax(*AET_demand_cm + (mass_timestep - current_mass), 0.0);
+      // if the wetting fronts hold more water than they should, less of it was evapotranspired;
+      // water they cannot hold leaves through the lower boundary (below)
+      if (current_mass > mass_timestep)
+        *AET_demand_cm = fmax(*AET_demand_cm - mass_balance_error, 0.0);
       actual_ET_demand = *AET_demand_cm;
       break;
     }
-- 
2.43.0


From eeb7c9a3e21cd47e2edded24db715844ca201b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:35 +0000
Subject: [PATCH 26/38] fix: keep the head that closes a wetting front's mass
 balance over several layers

Close to saturation theta cannot resolve the head it belongs to. Recomputing psi from the rounded
theta gave the layers above a different amount of water, up to a local mass balance error above
1e-4 cm, on which the model aborts.
---
 include/all.hxx |  2 +-
 src/lgar.cxx    | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index 84c61d5..3dd62ed 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -328,7 +328,7 @@ extern int wetting_front_free_drainage(struct wetting_front* head);
 // computes updated theta (soil moisture content) after moving down a wetting front; called for each wetting front to ensure mass is conserved
 extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm, double new_mass,
 				      double prior_mass, double *AET_demand_cm, double *delta_theta, double *layer_thickness_cm,
-				      int *soil_type, struct soil_properties_ *soil_properties);
+				      int *soil_type, struct soil_properties_ *soil_properties, double *psi_cm_new);
 
 /********************************************************************/
 // Bmi functions
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1f3c271..cb0d6db 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1196,8 +1196,9 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
       // theta mass balance computes new theta that conserves the mass; new theta is assigned to the current wetting front
 
+      double psi_new = 0.0;
       double theta_new = lgar_theta_mass_balance(layer_num, soil_num, psi_cm, new_mass, prior_mass, AET_demand_cm,
-						 delta_thetas, delta_thickness, soil_type, soil_properties);
+						 delta_thetas, delta_thickness, soil_type, soil_properties, &psi_new);
       actual_ET_demand = *AET_demand_cm;
       //done with delta_thetas and delta_thickness, cleanup memory
       free(delta_thetas);
@@ -1207,6 +1208,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
       double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
       current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
 
+      // close to saturation theta is too coarse to recover the psi that closes the mass balance of all layers above
+      if (current->theta < theta_e && psi_new > 0.0)
+	current->psi_cm = psi_new;
+
       /* note: theta and psi of the current wetting front are updated here based on the wetting front's mass balance,
 	 upper wetting fronts will be updated later in the lgar_merge_ module (the place where all state
 	 variables are updated before proceeding to the next timestep. */
@@ -1222,6 +1227,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
   
     if ( (wf < last_wetting_front_index) && (layer_num == layer_num_below) ) {
 
+      double psi_new = 0.0; // psi found by the mass balance over several layers, if any
 
       if (verbosity.compare("high") == 0) {
 	printf("case (wetting front within a layer) : layer_num (%d) == layer_num_below (%d) \n", layer_num,layer_num_below);
@@ -1341,7 +1347,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 	  prior_mass += precip_mass_to_add - (free_drainage_demand + actual_ET_demand);
   // theta mass balance computes new theta that conserves the mass; new theta is assigned to the current wetting front
 	double theta_new = lgar_theta_mass_balance(layer_num, soil_num, psi_cm, new_mass, prior_mass, AET_demand_cm,
-						   delta_thetas, delta_thickness, soil_type, soil_properties);
+						   delta_thetas, delta_thickness, soil_type, soil_properties, &psi_new);
   actual_ET_demand = *AET_demand_cm;
   //done with delta_thetas and delta_thickness, cleanup memory
   free(delta_thetas);
@@ -1353,6 +1359,8 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
       if (current != NULL) {
         double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
         current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+        if (current->theta < theta_e && psi_new > 0.0)
+          current->psi_cm = psi_new;
       }
 
     }
@@ -2628,7 +2636,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 // ############################################################################################
 extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm, double new_mass,
 				      double prior_mass, double *AET_demand_cm, double *delta_theta, double *delta_thickness,
-				      int *soil_type, struct soil_properties_ *soil_properties)
+				      int *soil_type, struct soil_properties_ *soil_properties, double *psi_cm_new)
 {
 
   double psi_cm_loc = psi_cm; // location psi
@@ -2651,6 +2659,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     theta = calc_theta_from_h(psi_cm_loc, soil_properties[soil_num].vg_alpha_per_cm,
 			      soil_properties[soil_num].vg_m, soil_properties[soil_num].vg_n,
 			      soil_properties[soil_num].theta_e,soil_properties[soil_num].theta_r);
+    *psi_cm_new = psi_cm_loc;
     return theta;
   }
 
@@ -2773,6 +2782,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     *AET_demand_cm = 0.0;
   }
   
+  *psi_cm_new = psi_cm_loc; // the head that goes with theta
   return theta;
 
 }
-- 
2.43.0


From d7363bad141ef358b0aa5bffc3993cd79d244ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 27/38] fix: an object that is finalized and initialized again
 starts afresh

The previous simulation's routing arrays were lost, and its last fluxes were published as those of the new one.
---
 src/bmi_lgar.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 8dd92d8..0393246 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -39,11 +39,15 @@ Initialize (std::string config_file)
     lgar_initialize(config_file, state);
   }
 
+  bmi_unit_conv = bmi_unit_conversion(); // nothing of an earlier, finalized simulation is published
+
   num_giuh_ordinates = state->lgar_bmi_params.num_giuh_ordinates;
 
   /* giuh ordinates are static and read in the lgar.cxx, and we need to have a copy of it to pass to
      giuh.cxx, so allocating/copying here*/
 
+  delete [] giuh_ordinates;
+  delete [] giuh_runoff_queue;
   giuh_ordinates = new double[num_giuh_ordinates];
   giuh_runoff_queue = new double[num_giuh_ordinates+1];
 
-- 
2.43.0


From fbd6ee121e4442db48c20d9cca2eb92c03462f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:44 +0000
Subject: [PATCH 28/38] fix: keep a nearly saturated front's head when its
 theta rounds to theta_e

Where a small positive head makes theta round to theta_e in one layer but not in the layers above, the
head was set to zero, the whole column filled up, and the water this took was removed from AET or,
without AET, flowed in through the bottom as negative percolation (3e-4 cm).
---
 src/lgar.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index cb0d6db..e560d2d 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1209,7 +1209,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
       current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
 
       // close to saturation theta is too coarse to recover the psi that closes the mass balance of all layers above
-      if (current->theta < theta_e && psi_new > 0.0)
+      if (psi_new > 0.0)
 	current->psi_cm = psi_new;
 
       /* note: theta and psi of the current wetting front are updated here based on the wetting front's mass balance,
@@ -1359,7 +1359,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
       if (current != NULL) {
         double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
         current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
-        if (current->theta < theta_e && psi_new > 0.0)
+        if (psi_new > 0.0)
           current->psi_cm = psi_new;
       }
 
@@ -2772,7 +2772,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     *AET_demand_cm = *AET_demand_cm - (new_mass - prior_mass);
   }
 
-  if ( (theta>=soil_properties[soil_num].theta_e) && (psi_cm_loc!=0.0) ){
+  if ( (theta>=soil_properties[soil_num].theta_e) && (psi_cm_loc!=0.0) && (delta_mass > 1.0E-09) ){
     //addresses a very rare case. Sometimes when psi gets very close to 0 but is not 0, calc_theta_from_h will actually yield theta_e for a very small nonzero psi value (for example psi=1e-3 or something like that).
     //This can happen for example when the model domain is very close to saturation, and the number of WFs == the number of layers, but there is a little bit of AET so the resulting model state should have just slightly less water than complete saturation.
     //However, layers above the current one might not have the property that this small zonzero psi value yields theta = theta_e.
@@ -2780,6 +2780,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     //Then, later, the psi value for the current layer is set to 0.0 because its theta value is theta_e, and then the layers above will have their psi values set to 0.0, and then theta = theta_e everywhere in the model domain, whereas it should account for the recent small AET that happened.
     //Just setting the AET to 0 in these cases closes mass balance; another option would be to augment the recharge. Error is very rare and seems to happen once every 100k parameter sets or so, using yearlong simulations.
     *AET_demand_cm = 0.0;
+    psi_cm_loc = 0.0;
   }
   
   *psi_cm_new = psi_cm_loc; // the head that goes with theta
-- 
2.43.0


From 505ec73bcfef5494aaa94953002292b94f364240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:34 +0000
Subject: [PATCH 29/38] fix: ignore blanks around configuration keys, values
 and units

A blank, tab or carriage return after a unit (timestep=300[sec] ) made the unit
unrecognised, so that the number was silently taken as hours; blanks around '='
made optional entries silently fall back to their defaults.
---
 src/lgar.cxx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index e560d2d..f79335c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -144,6 +144,22 @@ extern void lgar_initialize(string config_file, struct model_state *state)
 }
 
 
+// #############################################################################################################################
+/*
+  Remove blanks, tabs and carriage returns around a key, value or unit read from a configuration file
+*/
+// #############################################################################################################################
+static string TrimBlanks(string text)
+{
+  size_t first = text.find_first_not_of(" \t\r");
+
+  if (first == string::npos)
+    return "";
+
+  return text.substr(first, text.find_last_not_of(" \t\r") + 1 - first);
+}
+
+
 // #############################################################################################################################
 /*
   Read and initialize values from a configuration file
@@ -194,9 +210,9 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 
     int loc_eq = line.find("=") + 1;
     int loc_u = line.find("[");
-    param_key = line.substr(0,line.find("="));
+    param_key = TrimBlanks(line.substr(0,line.find("=")));
 
-    param_value = line.substr(loc_eq,loc_u - loc_eq);
+    param_value = TrimBlanks(line.substr(loc_eq,loc_u - loc_eq));
 
     if (param_key == "verbosity") {
       verbosity = param_value;
@@ -253,16 +269,16 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 
     int loc_eq = line.find("=") + 1;
     int loc_u = line.find("[");
-    param_key = line.substr(0,line.find("="));
+    param_key = TrimBlanks(line.substr(0,line.find("=")));
 
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = TrimBlanks(line.substr(loc_u,line.find("]") + 1 - loc_u));
     else
       param_unit = "";
 
-    param_value = line.substr(loc_eq,loc_u - loc_eq);
+    param_value = TrimBlanks(line.substr(loc_eq,loc_u - loc_eq));
     
     if (param_key == "layer_thickness") {
       vector<double> vec = ReadVectorData(param_value);
-- 
2.43.0


From f12d236f64cc69f39756706688de50bf16b1052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:34 +0000
Subject: [PATCH 30/38] fix: refuse an unknown time unit in the configuration

An unknown unit of timestep or forcing_resolution was silently read as hours, and
of endtime left the end time unset.
---
 src/lgar.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index f79335c..90aa0d6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -449,6 +449,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.timestep_h /= 60; // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.timestep_h /= 1.0; // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' sets timestep in an unknown unit "<< param_unit <<". \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.timestep_h > 0);
       is_timestep_set = true;
@@ -473,6 +478,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 3600.0;
       else if (param_unit == "[d]" || param_unit == "[day]")
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 86400.0;
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' sets endtime in an unknown unit "<< param_unit <<". \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.endtime_s > 0);
       is_endtime_set = true;
@@ -494,6 +504,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.forcing_resolution_h /= 60;                 // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.forcing_resolution_h /= 1.0;               // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' sets forcing_resolution in an unknown unit "<< param_unit <<". \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.forcing_resolution_h > 0);
       is_forcing_resolution_set = true;
-- 
2.43.0


From 2260e14f9b5c5ec356d822184735ed58a3650122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:10 +0000
Subject: [PATCH 31/38] fix: infiltrate when the remaining water fills the
 ponding depth exactly

Neither branch of lgar_insert_water covered ponded_depth_temp ==
ponded_depth_max_cm, so nothing infiltrated and more than the maximum
stayed ponded.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 90aa0d6..8df7eb3 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2193,7 +2193,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else if (ponded_depth_temp >= ponded_depth_max_cm ) {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 19140eb922aae3e5e3ccf85cf38be4a307b50814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:13 +0000
Subject: [PATCH 32/38] fix: report the shape of the scalar and the temperature
 grids

GetGridShape left the caller's array untouched for these grids, although
GetGridRank announces one dimension for them.
---
 src/bmi_lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 0393246..6e1ea5e 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -856,10 +856,14 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
+  if (grid == 0 || grid == 1) // scalars
+    shape[0] = 1;
+  else if (grid == 2)
     shape[0] = this->state->lgar_bmi_params.num_layers;
   else if (grid == 3) // number of wetting fronts (dynamic)
     shape[0] = this->state->lgar_bmi_params.num_wetting_fronts;
+  else if (grid == 4) // number of cells (discretized temperature profile, input from SFT)
+    shape[0] = this->state->lgar_bmi_params.num_cells_temp;
 }
 
 
-- 
2.43.0


From cc870ae89a3b30251453691f0dc773939656a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:10 +0000
Subject: [PATCH 33/38] fix: keep the head of a nearly saturated front that is
 as wet as the one below it

---
 src/lgar.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 8df7eb3..dd77ebf 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1965,6 +1965,10 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 	int layer_num_k = current->layer_num;
 	double mass_before = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
 
+	// near saturation different heads round to the same theta; the fronts above hold their water at the deleted front's head
+	bool is_same_theta = (current->theta == next->theta);
+	double psi_deleted = current->psi_cm;
+
 	current = listDeleteFront(current->front_num, head);
 	
 	// if the dry wetting front is the most surficial then simply track the mass change
@@ -1980,7 +1984,7 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 	  double Se_k       = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
 
 	  // now this is the wetting front that was below the dry wetting front
-	  current->psi_cm = calc_h_from_Se(Se_k, vg_a_k, vg_m_k, vg_n_k);
+	  current->psi_cm = is_same_theta ? psi_deleted : calc_h_from_Se(Se_k, vg_a_k, vg_m_k, vg_n_k);
 
 	  struct wetting_front *current_local = *head; //In LGARTO, should be the highest to_bottom WF above the one that got deleted before the next to_bottom==FALSE one, but *head is fine for LGAR 
 
-- 
2.43.0


From 9b554c96d26b6efd9b0e3d374125a3aa1da0e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 34/38] fix: do not divide by a moisture step of zero when a
 saturated front deepens

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index dd77ebf..e6c94dd 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1425,7 +1425,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
 	double factor = 1.0;
   if (wf_free_drainage->next!=NULL){
-    if (fabs(wf_free_drainage->theta - wf_free_drainage->next->theta)<0.01){// if two adjacent theta values are quite close, an initial factor of 1.0 might not make the mass balance close within 10000 iterations
+    if (wf_free_drainage->theta != wf_free_drainage->next->theta && fabs(wf_free_drainage->theta - wf_free_drainage->next->theta)<0.01){// if two adjacent theta values are quite close, an initial factor of 1.0 might not make the mass balance close within 10000 iterations
       factor = factor / fabs(wf_free_drainage->theta - wf_free_drainage->next->theta);
     }
   }
-- 
2.43.0


From f90b3ef23e1ecdbfbbb995387c3aa018580fb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:59 +0000
Subject: [PATCH 35/38] fix: hand the head of a front that leaves the column to
 the state it leaves behind

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index e6c94dd..b6f63ee 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1912,7 +1912,7 @@ extern double lgar_wetting_front_cross_domain_boundary(double domain_depth_cm, i
 
       next->theta = current->theta;
       double Se_k = calc_Se_from_theta(current->theta,theta_e,theta_r);
-      next->psi_cm = calc_h_from_Se(Se_k, vg_a, vg_m, vg_n);
+      next->psi_cm = current->psi_cm; // not from theta: near saturation different heads round to the same theta
       next->K_cm_per_h = calc_K_from_Se(Se_k, Ksat_cm_per_h, vg_m);
       current = listDeleteFront(current->front_num, head);
       bottom_flux_cm += bottom_flux_cm_temp; 
-- 
2.43.0


From e23f461c849413319307e563048522d51ff02188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:49 +0000
Subject: [PATCH 36/38] fix: publish the initial water in the soil, and balance
 the summary of a run without steps

---
 src/bmi_lgar.cxx | 3 +++
 src/lgar.cxx     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 6e1ea5e..d41d487 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -41,6 +41,9 @@ Initialize (std::string config_file)
 
   bmi_unit_conv = bmi_unit_conversion(); // nothing of an earlier, finalized simulation is published
 
+  if (!state->lgar_bmi_params.is_invalid_soil_type)
+    bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volend_cm * state->units.cm_to_m; // initial water in the soil
+
   num_giuh_ordinates = state->lgar_bmi_params.num_giuh_ordinates;
 
   /* giuh ordinates are static and read in the lgar.cxx, and we need to have a copy of it to pass to
diff --git a/src/lgar.cxx b/src/lgar.cxx
index b6f63ee..30d6859 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -127,7 +127,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   // initialize all global mass balance variables to zero
   state->lgar_mass_balance.volprecip_cm              = 0.0;
   state->lgar_mass_balance.volin_cm                  = 0.0;
-  state->lgar_mass_balance.volend_cm                 = 0.0;
+  state->lgar_mass_balance.volend_cm                 = state->lgar_mass_balance.volstart_cm; // nothing has left or entered the soil yet
   state->lgar_mass_balance.volAET_cm                 = 0.0;
   state->lgar_mass_balance.volrech_cm                = 0.0;
   state->lgar_mass_balance.volrunoff_cm              = 0.0;
-- 
2.43.0


From 746fa1097703969c006547f9877ea9ceb06cffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:47 +0000
Subject: [PATCH 37/38] fix: keep the head of a front that crosses a layer
 boundary near saturation

---
 src/lgar.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 30d6859..cf16932 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1799,7 +1799,10 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       //double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[current->layer_num]; 
 
       double Se = calc_Se_from_theta(current->theta,theta_e, theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+
+      // near saturation theta does not determine psi to within roundoff; don't replace a psi that yields theta
+      if (calc_theta_from_h(current->psi_cm, vg_a, vg_m, vg_n, theta_e, theta_r) != current->theta)
+	current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
 
       current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m);
       
-- 
2.43.0


From a94389d4ec6a8c934a30a711ccfca5d355f692ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:21 +0000
Subject: [PATCH 38/38] fix: refuse a temperature grid without a cell in some
 layer

Such a soil_z was accepted; the first step then read soil_z and the temperatures
past their end (last layers) or stopped at an assertion.
---
 src/lgar.cxx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index cf16932..f77f7b9 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -737,6 +737,22 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+
+    // every layer needs at least one cell of the temperature profile (see frozen_factor_hydraulic_conductivity)
+    int cell = 0;
+    for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
+      int first_cell = cell;
+      while (cell < state->lgar_bmi_params.num_cells_temp &&
+	     state->lgar_bmi_params.soil_temperature_z[cell] <= state->lgar_bmi_params.cum_layer_thickness_cm[layer])
+	cell++;
+
+      if (cell == first_cell) {
+	stringstream errMsg;
+	errMsg << "The configuration file \'" << config_file <<"\' sets soil_z without a cell in layer "<< layer <<". \n";
+	throw runtime_error(errMsg.str());
+      }
+    }
+
     state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
-- 
2.43.0

