From bf5bea87c581225bcf3b6ce68f81e34aa4ccace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 01/72] fix: update grid compressibility and expansivity each
 step also without elasticity

---
 MDLIB/Main_DOODZ.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..651bd89 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -509,11 +509,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             InterpCentroidsToVerticesDouble( mesh.sxxd0, mesh.sxxd0_s, &mesh, &input.model );
             InterpCentroidsToVerticesDouble( mesh.szzd0, mesh.szzd0_s, &mesh, &input.model );
             InterpVerticesToCentroidsDouble( mesh.sxz0_n,  mesh.sxz0,  &mesh, &input.model );
-
-            // Interpolate shear modulus
-            ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
         }
 
+        // Interpolate shear modulus, compressibility and expansivity (the last two are also needed without elasticity)
+        ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
+
         // Director vector
         if (input.model.anisotropy == 1 ) {
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 0e21639cfb552492a28f5e6cf1d65b6d41eedc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 02/72] fix: write breakpoint files completely before they
 replace or delete an older one

---
 MDLIB/InputOutput.c | 35 +++++++++++++++++++----------------
 MDLIB/Main_DOODZ.c  |  2 +-
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..7ff5db0 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -122,19 +122,12 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void DeletePreviousBreakpoint( int step, int writer_step ) {
-    char *name, *command, *new_name;
-    int success;
+    char *name;
     if ((step- 2*writer_step)>1) {
-        asprintf(&new_name, "Breakpoint%05d.dat", step- 0*writer_step);
-        asprintf(&name,     "Breakpoint%05d.dat", step- 2*writer_step);
-        asprintf(&command, "mv %s %s", name, new_name );
-        success = system( command );
-        printf("File %s replaced by %s\n", name, new_name);
-        if ( success!=-1 ) printf("File %s was successfully renamed\n", name);
-        else printf("File %s was not successfully renamed\n", name);
+        asprintf(&name, "Breakpoint%05d.dat", step- 2*writer_step);
+        if ( remove(name)==0 ) printf("File %s was successfully deleted\n", name);
+        else printf("File %s was not successfully deleted\n", name);
         free(name);
-        free(new_name);
-        free(command);
     }
 }
 
@@ -501,7 +494,7 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
 
 void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_chain, markers *topo_chain_ini, params model, surface *topo, surface* topo_ini, scale scaling ) {
 
-    char *name;
+    char *name, *tmp_name;
     int s1=sizeof(int), s2=sizeof(double), s3=sizeof(DoodzFP), s4=sizeof(char);
     int k, l, Nx=model.Nx, Nz=model.Nz, c;
     int Ncx = Nx-1, Ncz = Nz-1;
@@ -667,11 +660,13 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if( model.delete_breakpoints == -1 ) asprintf(&name, "BreakpointXXXXX.dat");
     else asprintf(&name, "Breakpoint%05d.dat", model.step);
 
-    file = fopen(name, "wb");
+    // Write to a temporary file, it only replaces a previous breakpoint once it is complete
+    asprintf(&tmp_name, "%s.tmp", name);
+    file = fopen(tmp_name, "wb");
     if ( file == NULL ) {
-        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
+        printf("Error opening %s\nExiting...\n", tmp_name);
+        free(tmp_name);
         free(name);
-        fclose(file);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -843,7 +838,15 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->exz_mean_time  , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
 
-    fclose(file);
+    int write_error = ferror(file);
+    if ( fclose(file) != 0 ) write_error = 1;
+    if ( write_error == 0 && rename(tmp_name, name) != 0 ) write_error = 1;
+    if ( write_error != 0 ) {
+        printf("Error writing %s\nExiting...\n", name);
+        remove(tmp_name);
+        exit(1);
+    }
+    free(tmp_name);
     free(name);
 
     //---------------------------------------------------------------------------------------------------------//
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 651bd89..3b5a626 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1209,8 +1209,8 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
             // Breakpoint file
             t_omp = (double)omp_get_wtime();
-            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
             MakeBreakpointParticles( &particles, &mesh, &topo_chain, &topo_chain_ini, input.model, &topo, &topo_ini, input.scaling );
+            if (input.model.delete_breakpoints == 1 ) DeletePreviousBreakpoint(input.model.step, input.model.writer_step  );
             // UpdateInputFile( inputFileName, input.model.step);
             printf("** Time for Breakpoint file write = %lf sec\n", (omp_get_wtime() - t_omp));
 
-- 
2.43.0


From 5260fce0913bc8bb1e98bfeac2141553fac3c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 03/72] fix: refuse incomplete breakpoint files, restore time
 series when resuming with another Nt

---
 MDLIB/InputOutput.c | 49 ++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 7ff5db0..f869772 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -121,6 +121,9 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
+// Marks the end of a complete breakpoint file (followed by the number of steps, i.e. the length of the time series)
+#define BREAKPOINT_TRAILER 0x4D44425A
+
 void DeletePreviousBreakpoint( int step, int writer_step ) {
     char *name;
     if ((step- 2*writer_step)>1) {
@@ -152,7 +155,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -160,6 +162,10 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     fread( &s2, 1, 1, file);
     fread( &s3, 1, 1, file);
     fread( &s4, 1, 1, file);
+    if ( s1 != sizeof(int) || s2 != sizeof(double) || s3 != sizeof(DoodzFP) || s4 != sizeof(char) ) {
+       printf("File %s is not a valid breakpoint file\nExiting...\n", name);
+       exit(1);
+    }
     fread( &model->dt,   s2, 1, file);
     fread( &model->dt0,  s2, 1, file);
     fread( &model->time, s2, 1, file);
@@ -310,23 +316,28 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
-        // Timeseries
-        fread( mesh->Time_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Short_time     , s3,   model->Nt+1 ,   file );
-        fread( mesh->Work_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uthermal_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uelastic_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->T_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->P_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->szzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Tii_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->exxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->ezzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->exz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Eii_mean_time  , s3,   model->Nt+1 ,   file );
-
+        // Timeseries - as many entries as the run that wrote the file had (Nt may differ from the one of the current run)
+        int  Nt_file = model->Nt;
+        long start   = ftell(file), end;
+        fseek( file, 0, SEEK_END );
+        end = ftell(file);
+        if ( start + 15L*s3*(Nt_file+1) != end ) {
+            int trailer[2] = {0, -1};
+            fseek( file, -(long)sizeof(trailer), SEEK_END );
+            fread( trailer, sizeof(trailer), 1, file );
+            Nt_file = trailer[1];
+            if ( trailer[0] != BREAKPOINT_TRAILER || Nt_file < 0 || start + 15L*s3*(Nt_file+1) + (long)sizeof(trailer) != end ) {
+                printf("File %s is incomplete or does not match the current input file\nExiting...\n", name);
+                exit(1);
+            }
+        }
+        DoodzFP *series[15] = { mesh->Time_time, mesh->Short_time, mesh->Work_time, mesh->Uthermal_time, mesh->Uelastic_time,
+                                mesh->T_mean_time, mesh->P_mean_time, mesh->sxxd_mean_time, mesh->szzd_mean_time, mesh->sxz_mean_time,
+                                mesh->Tii_mean_time, mesh->exxd_mean_time, mesh->ezzd_mean_time, mesh->exz_mean_time, mesh->Eii_mean_time };
+        for ( k=0; k<15; k++ ) {
+            fseek( file, start + (long)k*s3*(Nt_file+1), SEEK_SET );
+            fread( series[k], s3, (Nt_file < model->Nt ? Nt_file : model->Nt) + 1, file );
+        }
 
     fclose(file);
     free(name);
@@ -837,6 +848,8 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->ezzd_mean_time , s3,   model.Nt+1 ,   file );
     fwrite( mesh->exz_mean_time  , s3,   model.Nt+1 ,   file );
     fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
+    int trailer[2] = { BREAKPOINT_TRAILER, model.Nt };
+    fwrite( trailer              , s1,            2 ,   file );
 
     int write_error = ferror(file);
     if ( fclose(file) != 0 ) write_error = 1;
-- 
2.43.0


From 57a85833a8c0505742c86f61c546183e553b547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:02 +0000
Subject: [PATCH 04/72] fix: stay inside the temperature arrays when evaluating
 the thermal time step

---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b0c2ee3 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<Ncx; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From 568b2907650fb3473dfb0e5f828608c641a02e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:02 +0000
Subject: [PATCH 05/72] fix: do not transmutate inactive markers, include the
 last marker

---
 MDLIB/ParticleRoutines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..2c1914e 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3570,8 +3570,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue; // inactive marker
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From 64dc4aa9c51de9af5295501b7eb8a1c5f3f6f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:15 +0000
Subject: [PATCH 06/72] fix: report a missing setup file instead of crashing

---
 MDLIB/InputOutput.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index f869772..224a111 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1037,7 +1037,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
-- 
2.43.0


From d250cba1af15a73b86cbbe622e4b3687c01957a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:15 +0000
Subject: [PATCH 07/72] fix: initialise the flow law parameters of inactive
 mechanisms

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 224a111..fd1ad43 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1029,7 +1029,7 @@ Input ReadInputFile( char *fileName ) {
     //------------------------------------------------------------------------------------------------------------------------------//
 
     params model;
-    mat_prop materials;
+    mat_prop materials = {0}; // flow law parameters are only read for the active mechanisms
     Nparams Nmodel;
     FILE *fin;
     int k, gsel;
-- 
2.43.0


From 5330e30a222257e41521c6d99249b7b01a8ce94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:14 +0000
Subject: [PATCH 08/72] fix: read the last line of the setup file and lines
 without blanks correctly

---
 MDLIB/InputOutput.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index fd1ad43..785d441 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1930,8 +1930,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1941,7 +1940,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -1961,7 +1960,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0'; h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -2003,8 +2002,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -2013,7 +2011,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
 
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2033,7 +2031,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0'; h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -2075,8 +2073,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin))
+        if (fgets ( line, sizeof(line), fin ) == NULL)
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2087,7 +2084,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2107,7 +2104,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         if( (strcmp("ID", param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; line[h] != '\0'; h++)
             {
                 if(strlen(line)> 0 && line[h] == '=')
                 {
@@ -2123,10 +2120,10 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                 while(subfind == 0)
                 {
                     // Read new line
-                    fgets ( phase_line, sizeof(phase_line), fin );
+                    if (fgets ( phase_line, sizeof(phase_line), fin ) == NULL) phase_line[0] = '\0';
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
+                    while(phase_line[InPar_length] != ' ' && phase_line[InPar_length] != '=' && phase_line[InPar_length] != '\0')
                     {
                         InPar_length = InPar_length + 1;
                     }
@@ -2157,7 +2154,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     if( (strcmp(param1, param3)) == 0 )
                     {
                         // Search for equal sign
-                        for (h = 0; h < bufmax ;h++)
+                        for (h = 0; phase_line[h] != '\0'; h++)
                         {
 
                             if(strlen(line)> 0 && phase_line[h]=='=')
-- 
2.43.0


From 362da66d53e3d86f9d04a37df0f6f72b4677904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 09/72] fix: read the second phase of a mixture from its own
 parameter

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 785d441..14da901 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1354,7 +1354,7 @@ Input ReadInputFile( char *fileName ) {
         materials.phase_diagram[k]     = (int)ReadMatProps( fin, "phase_diagram",     k,   -1  );
         // Diffused rheological contrasts
         materials.phase_mix[k]  = (int)ReadMatProps( fin, "phase_mix",k,          0.0  );
-        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_mix",k,    (double)k  );
+        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_two",k,    (double)k  );
         // Anisotropy
         materials.aniso_angle[k]    =  ReadMatProps( fin, "aniso_angle",     k,   90.0  )  * M_PI/ 180.0;
         materials.aniso_factor[k]   =  ReadMatProps( fin, "aniso_factor",    k,    1.0  ); 
-- 
2.43.0


From 4b7439d9fdb308abdc87607f9bbfc4980fce0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 10/72] fix: read path names of any length from the setup file

---
 MDLIB/InputOutput.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 14da901..066c137 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1732,7 +1732,7 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
@@ -1755,9 +1755,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
             rewind(fin);
             free(string1);
@@ -1792,8 +1790,8 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             for (h=0;h<bufmax;h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
+                    for (h1=0; h1<bufmax-h-2; h1++) {
+                        if ( isspace(line[h+2+h1]) || line[h+2+h1]=='\0' ) {
                             string1[h1] = '\0';
                             str_size++;
                             break;
-- 
2.43.0


From 31d5162c373790fc0938b3d13e7c8d5a67092f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 11/72] fix: report missing initial marker files instead of
 crashing

---
 MDLIB/InputOutput.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 066c137..4c000a9 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -70,8 +70,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
-        free(name);
         exit(1);
     }
 
-- 
2.43.0


From 7b8aed2856ea1728a23b0487239d67449e7fac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:48 +0000
Subject: [PATCH 12/72] fix: do not free the mechanical solver arrays of a run
 without mechanics

---
 MDLIB/Main_DOODZ.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 3b5a626..3f78a5c 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1177,25 +1177,27 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         }
 
         // Free solution arrays
-        SFree( &Stokes );
-        if ( NeedJacobian ) SFree( &Jacob );
-        SFree( &StokesA );
-        SFree( &StokesB );
-        SFree( &StokesC );
-        SFree( &StokesD );
-        if ( NeedJacobian ) {
-            SFree( &JacobA );
-            SFree( &JacobB );
-            SFree( &JacobC );
-            SFree( &JacobD );
-        }
-        DoodzFree( Stokes.eqn_u );
-        DoodzFree( Stokes.eqn_v );
-        DoodzFree( Stokes.eqn_p );
-        if ( NeedJacobian ) {
-            DoodzFree( Jacob.eqn_u );
-            DoodzFree( Jacob.eqn_v );
-            DoodzFree( Jacob.eqn_p );
+        if ( input.model.mechanical == 1 ) {
+            SFree( &Stokes );
+            if ( NeedJacobian ) SFree( &Jacob );
+            SFree( &StokesA );
+            SFree( &StokesB );
+            SFree( &StokesC );
+            SFree( &StokesD );
+            if ( NeedJacobian ) {
+                SFree( &JacobA );
+                SFree( &JacobB );
+                SFree( &JacobC );
+                SFree( &JacobD );
+            }
+            DoodzFree( Stokes.eqn_u );
+            DoodzFree( Stokes.eqn_v );
+            DoodzFree( Stokes.eqn_p );
+            if ( NeedJacobian ) {
+                DoodzFree( Jacob.eqn_u );
+                DoodzFree( Jacob.eqn_v );
+                DoodzFree( Jacob.eqn_p );
+            }
         }
 
         //------------------------------------------------------------------------------------------------------------------------------//
-- 
2.43.0


From 26ea37c8539f57cd2313843651efd0b95c602f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 13/72] fix: do not limit the time step to zero when no
 reaction time is given

---
 MDLIB/AdvectionRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index b0c2ee3..f293df1 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -645,7 +645,7 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
         }
         
         // If timestep is adaptive: Chemical limitation
-        if ( model->constant_dt != 1 && model->chemical_diffusion == 1 && dt_reac<model->dt ) {
+        if ( model->constant_dt != 1 && model->chemical_diffusion == 1 && dt_reac>0.0 && dt_reac<model->dt ) {
                 printf("EvaluateCourantCriterion: --> min_tau_kin = %2.2e s \n", min_tau_kin*scaling.t);
                 printf("Timestep limited by Chemical Reaction\n");
                 model->dt = dt_reac;
-- 
2.43.0


From c9eeb46c1b401d6793c92c566d1e7cb8f2f4849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 14/72] fix: accept isotropic cells with geometric averaging of
 the anisotropy factor

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..32c38fb 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -393,7 +393,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
         }
 
 
-        if ( isinf(1.0/mesh->aniso_factor_n[c0]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_n[c0]) ) {
           printf("Cell %d has no neighbouring particles: average=%d, value = %2.2e, 1/value=%2.2e \n", c0, average, mesh->aniso_factor_n[c0], 1.0/mesh->aniso_factor_n[c0]);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_n[p][c0]);
@@ -443,7 +443,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
 
         }
 
-        if ( isinf(1.0/mesh->aniso_factor_s[c1]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_s[c1]) ) {
           printf("Node %d has no neighbouring particles\n", c1);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_s[p][c1]);
-- 
2.43.0


From f1ec3e481e6a8432136537a205ce7d6ad277ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 15/72] fix: skip cells of prescribed pressure when the
 pressure block is built

---
 MDLIB/Solvers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Solvers.c b/MDLIB/Solvers.c
index ff70cfe..1393a24 100755
--- a/MDLIB/Solvers.c
+++ b/MDLIB/Solvers.c
@@ -723,7 +723,7 @@ void DirectStokesDecoupledComp( SparseMat *matA,  SparseMat *matB,  SparseMat *m
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1084,7 +1084,7 @@ void KillerSolver( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  SparseM
 
 #pragma omp parallel for shared( whos_incompressible, D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             // Here Dcm0 is the pressure block - This relates to physics (0 is incompressible, Beta/dt is compressible)
             if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
@@ -1481,7 +1481,7 @@ void KSPStokesDecoupled( SparseMat *matA,  SparseMat *matB,  SparseMat *matC,  S
     
 #pragma omp parallel for shared(D1cm0, Dcm0, mesh, Stokes, matA, matD ) private( i ) firstprivate( model, celvol, vol_change )
     for( k=0; k<(mesh->Nx-1)*(mesh->Nz-1); k++) {
-        if ( mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
+        if ( mesh->BCp.type[k] != 0 && mesh->BCp.type[k] != 30 && mesh->BCp.type[k] != 31 ) {
             i = Stokes->eqn_p[k] - matA->neq;
             
             //            cPC    = drhodPc ./ (rhoc.*dt); %% new diagonal coefficient (= 1/(K*dt) for standard EOS)
-- 
2.43.0


From cab3abd5221531e591c5b8654e2fb95417208353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 16/72] fix: no access beyond the grid at stress boundary
 conditions

---
 MDLIB/StokesAssemblyDecoupled.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..b39372c 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // Stress BC: no cell beyond the boundary
+    if ( SxxBCW == 1.0 ) iPrW = iPrE;
+    if ( SxxBCE == 1.0 ) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -137,7 +141,7 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr<0.0) uC_corr = 0.0;
@@ -593,6 +597,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
+    // Stress BC: no cell, no velocity node beyond the boundary
+    if ( SzzBCS == 1.0 ) { iPrS = iPrN; iVzS = iVzC; }
+    if ( SzzBCN == 1.0 ) { iPrN = iPrS; iVzN = iVzC; }
+
     // Variable PDE coefficient
     const double D22S  = mesh->D22_n[iPrS];
     const double D22N  = mesh->D22_n[iPrN];
@@ -642,7 +650,7 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodz  = (mesh->rho_n[c2+ncx] - mesh->rho_n[c2])*one_dz;
+        double drhodz  = (mesh->rho_n[iPrN] - mesh->rho_n[iPrS])*one_dz;
         vC_corr = 1.00 * om * model.dt * mesh->gz[c3] * drhodz;
         // Importante trique, voire meme gigantesque!
         if ((vC+vC_corr)<0.0 || (vC+vC_corr)<vW || (vC+vC_corr)<vE) vC_corr = 0.0;
-- 
2.43.0


From 41d124d893b3b2fd4d70bcf0ec31385020f5e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 17/72] fix: no access above the top row in the surface density
 correction

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..b79ec8b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -854,7 +854,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if (j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -877,7 +877,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if (j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From f5c1104910e3a6b75f5cbbf4e4da25a31b39ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 18/72] fix: incision rate without surface diffusion

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index b79ec8b..9b44abe 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -934,7 +934,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             }
 
             // Recompute erosion rate to satisfy mass
-            Vinc_num = Wvalley*dt*Vinc / (ncell*dx*dt);
+            Vinc_num = Wvalley*Vinc / (ncell*dx);
 
             printf("We currently have %0d cell(s) within the valley region\n", ncell);
             printf("Real surface of eroded material should be: %2.2e\n", Wvalley*dt*Vinc);
-- 
2.43.0


From 18e4db0d4edfd043032b5e5d0ad90ebf559c7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:10 +0000
Subject: [PATCH 19/72] fix: apply both sweeps of the topography diffusion

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 9b44abe..6c0ad86 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -952,7 +952,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From 2232ec736e3f39db73a97d0b3571075accb4af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 20/72] fix: reset the vorticity of nodes in the air

---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..7c5056e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1710,6 +1710,7 @@ void StrainRateComponents( grid* mesh, scale scaling, params* model ) {
     c2 = k  + l*(Nx+1);
 
     mesh->exz[c1] = 0.0;
+    mesh->wxz[c1] = 0.0;
 
     if ( mesh->BCg.type[c1] != 30 ) {
       //            // Original implementation from Duretz et al., 2016
-- 
2.43.0


From 927c939bc10b1a8924ff3cc0dc0203f57f0809ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:16 +0000
Subject: [PATCH 21/72] fix: elastic strain rate of anisotropic materials is a
 rate

---
 MDLIB/AnisotropyRoutines.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 32c38fb..6756f08 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -312,7 +312,13 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     if ( peierls     == 1 )              eta_exp  = B_exp * pow( *Eii_exp, 1.0 / (ST + n_exp) - 1.0);
 
     // Compute dissipative strain rate components
-    if (elastic) *Eii_el   = Tii*Tii/(4*eta_el*eta_el);
+    if (elastic) {
+      const double Exx_el = (*Txx - Txx0)/2.0/eta_el;
+      const double Ezz_el = (*Tzz - Tzz0)/2.0/eta_el;
+      const double Eyy_el = -(Exx_el + Ezz_el);
+      const double Exz_el = (*Txz - Txz0)/2.0/eta_el;
+      *Eii_el  = sqrt(0.5*(Exx_el*Exx_el + Ezz_el*Ezz_el + Eyy_el*Eyy_el) + Exz_el*Exz_el);
+    }
     if (is_pl)   *Eii_pl   = gdot/2.0;
 
     // Partitioning of volumetric strain
-- 
2.43.0


From 828ef0ac050fea053c144df0df1d297d5928e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:16 +0000
Subject: [PATCH 22/72] fix: melt fraction curve independent of the temperature
 scale

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..9a32881 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -49,7 +49,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
     const double P_MPa = P/1e6*scaling->S; // convert P to MPa
     const double T_K   = T*scaling->T;     // convert T to K
     double Ts = T_K, Tl = T_K, Ql;
-    double alpha = 1e-7/(1/scaling->T); // very small number -> linear melting
+    double alpha = 1e-7; // very small number -> linear melting
 
     if (melt_model>0 && T>1e-13 && P>1e-13) {
 
-- 
2.43.0


From af9151a7e7654217fb0d1994b38ea4de0d2860ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:17 +0000
Subject: [PATCH 23/72] fix: solidus expressions of melt models 11 and 41

---
 MDLIB/MeltingRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 9a32881..d3eb418 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. - 17900/(P_MPa + 54) + 20200/pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 77b2e16b3fc33b93219d1fe60ed04ea26b9c91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:17 +0000
Subject: [PATCH 24/72] fix: relaxation time of subgrid pressure diffusion

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..8548366 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1325,7 +1325,7 @@ void UpdateParticlePressure( grid* mesh, scale scaling, params model, markers* p
         for ( k=0; k<particles->Nb_part; k++ ) {
             if (particles->phase[k] != -1) {
                 p         = particles->phase[k];
-                dtm       = etam[k]/ (materials->bet[p]);
+                dtm       = etam[k]*materials->bet[p];
                 dPms[k]   = -( particles->P[k] - Pm0[k]) * (1.0 - exp(-d*model.dt/dtm));
             }
         }
-- 
2.43.0


From f220e65f10c894f470dd2c8194cf5030193d3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 25/72] fix: give reseeded and inflowing markers a density

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 2c1914e..4a7deba 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -700,6 +700,7 @@ void AssignMarkerProperties (markers* particles, int new_ind, int min_index, par
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
@@ -771,6 +772,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
-- 
2.43.0


From cdd8bfea2105e05d5e5d479c655849c43e819170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 26/72] fix: initial deformation gradient of sediment markers

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 6c0ad86..82bdc40 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -160,8 +160,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From 86e049923e43429d379f29de1e0b401e37ca12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 27/72] fix: density, dual phase and director of sediment
 markers, and their number

---
 MDLIB/FreeSurface.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 82bdc40..3021578 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -131,11 +131,22 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
             
             if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
                 
+                if ( new_ind >= particles->Nb_part_max ) {
+                    printf("Too many particles: no room for sediment markers (maximum %d)\n", particles->Nb_part_max);
+                    exit(190);
+                }
+                
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
                 particles->x[new_ind]     = xnew;
                 particles->z[new_ind]     = znew;
                 particles->phase[new_ind] = sed_phase;
+                particles->dual[new_ind]  = sed_phase;
+                particles->rho[new_ind]   = materials.rho[sed_phase];
+                if (model.anisotropy==1) {
+                    particles->nx[new_ind] = cos(materials.aniso_angle[sed_phase]);
+                    particles->nz[new_ind] = sin(materials.aniso_angle[sed_phase]);
+                }
                 
                 particles->sxxd[new_ind]          =  0.0;
                 particles->sxz[new_ind]           =  0.0;
-- 
2.43.0


From 5ee0a9c8b08a0496514ff452fb0cd359565e967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 28/72] fix: east side of the radial zero-flux condition below
 the free surface

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..0e18c99 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -327,7 +327,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                             val +=  (1.0-aW)*AW*one_dx_dx;
                         }
 
-                        if (k==ncx-1 && model.polar==1) {
+                        if (k==ncx-1 && model.polar==1 && mesh->BCT_exp.type[c0+(ncx+2)]!=30 ) {
                             xn   = mesh->xg_coord[k+1]+model.dx/2.0;
                             zn   = mesh->zc_coord[l];
                             tet  = atan(zn/xn);
-- 
2.43.0


From 89ef4a31fdcc90e4d60e8ea4756c389ebd8fe8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:02 +0000
Subject: [PATCH 29/72] fix: basal heat flux uses the vertical grid spacing

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 0e18c99..500737e 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From e9a7cc90e0e96dc870e9cd2a9fc21053c134e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:10 +0000
Subject: [PATCH 30/72] fix: basal chemical flux uses the vertical grid spacing

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..a56a467 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -268,7 +268,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From d3e1a8bc636650265bc1f873d475485141a7b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:44 +0000
Subject: [PATCH 31/72] fix: east side of the radial zero-flux condition for
 composition

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index a56a467..ee8e499 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -298,7 +298,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                     val +=  (1.0-aW)*AW*one_dx_dx;
                 }
                 
-                if (k==ncx-1 && model.polar==1) {
+                if (k==ncx-1 && model.polar==1 && mesh->BCC_exp.type[c0+(ncx+2)]!=30 ) {
                     
                     xn   = mesh->xg_coord[k+1]+model.dx/2.0;
                     zn   = mesh->zc_coord[l];
-- 
2.43.0


From 8da2ddd1f665252e1db819c2b3c27a8f3a9aef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:27 +0000
Subject: [PATCH 32/72] fix: periodic averaging of conductivities at the
 lateral sides

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 4a7deba..3df16ed 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2305,7 +2305,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     }
 
     // Make periodic
-    if (centroid==0 && prop==0 && model->periodic_x==1) {
+    if ((centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) {
         double av;
         for( int l=0; l<Nz; l++) {
             int c1 = l*Nx + Nx-1;
-- 
2.43.0


From 591ba527d63025600b7d8e3b581146c600e1ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:54 +0000
Subject: [PATCH 33/72] fix: nodes that become air do not keep interpolated
 values of earlier steps

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 3df16ed..e69792b 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2282,6 +2282,8 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     for (i=0;i<Nx*Nz;i++) {
         
         if ( fabs(WM[i])<1e-30  || (NodeType[i]==30 || NodeType[i]==31) ) {
+            // Nodes that are now in the air do not keep values of an earlier step
+            if ( prop == 0 && (NodeType[i]==30 || NodeType[i]==31) ) NodeField[i] = 0.0;
         }
         else {
             
-- 
2.43.0


From b7b15cfcc8227e353aeedd9225a0e026f665a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:04 +0000
Subject: [PATCH 34/72] fix: interpolate the vorticity to the markers for the
 rotation of elastic stresses

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 8548366..a834670 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1623,7 +1623,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm,  mesh, mesh->wxz,  mesh->xg_coord,  mesh->zg_coord,  mesh->Nx,   mesh->Nz,   mesh->BCg.type  );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From 37e9a0256ce1963c85c4493c89eea0166c3a7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:04 +0000
Subject: [PATCH 35/72] fix: sense of the analytical rotation of elastic
 stresses

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index a834670..b3743f6 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1637,7 +1637,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k];
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From b4ad3c57f4726de5cc665221e13d3282a72fa37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 36/72] fix: marker velocity beyond the west and south sides of
 a moving box (mirrored instead of extrapolated)

---
 MDLIB/ParticleRoutines.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index e69792b..0cefdfc 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -93,8 +93,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
             i_part = Nz-2;
         }
         
-        dxm = fabs(particles->x[k] - xg[j_part]);
-        dzm = fabs(particles->z[k] - zvx[i_part]);
+        dxm = particles->x[k] - xg[j_part];
+        dzm = particles->z[k] - zvx[i_part];
         
         iSW = j_part+i_part*Nx;
         iSE = j_part+i_part*Nx+1;
@@ -183,8 +183,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
             i_part = Nz-2;
         }
         
-        dxm = fabs(particles->x[k] - xvz[j_part]);
-        dzm = fabs(particles->z[k] - zg[i_part]);
+        dxm = particles->x[k] - xvz[j_part];
+        dzm = particles->z[k] - zg[i_part];
         
         iSW = j_part+i_part*Nx;
         iSE = j_part+i_part*Nx+1;
-- 
2.43.0


From 4cf82b574d4339156cd65d9cc59426ceba87280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 37/72] fix: conservative velocity interpolation next to the
 free surface used undefined air velocities

---
 MDLIB/ParticleRoutines.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 0cefdfc..18dc3ce 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -135,8 +135,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
                     iNEE  = j_part+(i_part+1)*Nx+1 + 1;
                     VSEE  = Vx[iSEE];
                     VNEE  = Vx[iNEE];
-                    if (tagVx[iSEE] == 30) VSEE = Vx[iSW];
-                    if (tagVx[iNEE] == 30) VNEE = Vx[iNW];
+                    if (tagVx[iSEE] == 30) VSEE = VSW;
+                    if (tagVx[iNEE] == 30) VNEE = VNW;
                     vxm13 = vxm13 + 0.5*pow((dxm/dx-0.5),2.0) * (VSW - 2.0*VSE + VSEE);
                     vxm24 = vxm24 + 0.5*pow((dxm/dx-0.5),2.0) * (VNW - 2.0*VNE + VNEE);
                 }
@@ -147,8 +147,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
                     iNWW  = j_part+(i_part+1)*Nx - 1;
                     VSWW  = Vx[iSWW];
                     VNWW  = Vx[iNWW];
-                    if (tagVx[iSWW] == 30) VSWW = Vx[iSE];
-                    if (tagVx[iNWW] == 30) VNWW = Vx[iNE];
+                    if (tagVx[iSWW] == 30) VSWW = VSE;
+                    if (tagVx[iNWW] == 30) VNWW = VNE;
                     vxm13 = vxm13 + 0.5*pow((dxm/dx-0.5),2.0) * (VSWW   -2.0*VSW   + VSE);
                     vxm24 = vxm24 + 0.5*pow((dxm/dx-0.5),2.0) * (VNWW   -2.0*VNW   + VNE);
                 }
@@ -225,8 +225,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
                     iNNE  = j_part+(i_part+2)*Nx + 1;
                     VNNW  = Vz[iNNW];
                     VNNE  = Vz[iNNE];
-                    if (tagVz[iNNW] == 30) VNNW = Vz[iSW];
-                    if (tagVz[iNNE] == 30) VNNE = Vz[iSE];
+                    if (tagVz[iNNW] == 30) VNNW = VSW;
+                    if (tagVz[iNNE] == 30) VNNE = VSE;
                     vzm12 = vzm12 + 0.5*pow((dzm/dz-0.5),2.0) * (VSW - 2.0*VNW + VNNW);
                     vzm34 = vzm34 + 0.5*pow((dzm/dz-0.5),2.0) * (VSE - 2.0*VNE + VNNE);
                 }
@@ -237,8 +237,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
                     iSSE  = j_part+(i_part-1)*Nx + 1;
                     VSSW = Vz[iSSW];
                     VSSE = Vz[iSSE];
-                    if (tagVz[iSSW] == 30) VSSW = Vz[iNW];
-                    if (tagVz[iSSE] == 30) VSSE = Vz[iNE];
+                    if (tagVz[iSSW] == 30) VSSW = VNW;
+                    if (tagVz[iSSE] == 30) VSSE = VNE;
                     vzm12 = vzm12 + 0.5*pow((dzm/dz-0.5),2.0) * (VSSW - 2.0*VSW + VNW);
                     vzm34 = vzm34 + 0.5*pow((dzm/dz-0.5),2.0) * (VSSE - 2.0*VSE + VNE);
                 }
-- 
2.43.0


From f7d61d94adff307a754f00edde1ff329c347afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 38/72] fix: porosity set on the markers was erased in the
 first step of runs without melting

---
 MDLIB/Main_DOODZ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 3f78a5c..229c9af 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -497,6 +497,8 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         // Interpolate Melt fraction
         P2Mastah( &input.model, particles, particles.phi,   &mesh, mesh.phi0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
+        // Without melting model, porosity does not evolve on the grid: it is the one carried by the markers
+        if ( input.model.melting == 0 ) ArrayEqualArray( mesh.phi_n, mesh.phi0_n, (mesh.Nx-1)*(mesh.Nz-1) );
 
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
-- 
2.43.0


From e2ea26f79cac0f3a734b8edc64012d2f25892d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 39/72] fix: composition was erased by the anisotropic rheology

---
 MDLIB/AnisotropyRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 6756f08..4f01235 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -109,6 +109,8 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     *Pcorr = P;
     // Constant grain size
     *d = d0;
+    // No reaction in the anisotropic flow law: composition is unchanged
+    *X1 = X0;
     // Activate deformation mechanisms
     if ( materials->cstv[phase] !=0                  ) constant    = 1;
     if ( materials->pwlv[phase] !=0                  ) dislocation = 1;
-- 
2.43.0


From 6ecf786ee6b20593ed580f697fc011cd8cb31f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:00 +0000
Subject: [PATCH 40/72] fix: composition does not diffuse into the air above
 the free surface

---
 MDLIB/FreeSurface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 3021578..3d07fdc 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -516,6 +516,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
     
     Initialise1DArrayChar(   mesh->BCp.type, ncx*ncz, -1  );
     Initialise1DArrayChar(   mesh->BCt.type,    ncx*ncz, -1  );
+    Initialise1DArrayChar(   mesh->BCc.type,    ncx*ncz, -1  );
     Initialise1DArrayChar(   mesh->BCu.type, nx*nzvx, -1  );
     Initialise1DArrayChar(   mesh->BCv.type, nxvz*nz, -1  );
     Initialise1DArrayChar(   mesh->BCg.type,    nx *nz , -1  );
@@ -623,6 +624,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
             
             if ( PVtag[c2] == 30 ) {
                 mesh->BCt.type[c1]     = 30;
+                mesh->BCc.type[c1]     = 30;
                 mesh->T[c1]            = zeroC/scaling.T ;
                 mesh->BCp_exp.type[c2] = 30;
             }
@@ -634,6 +636,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
                 
                 // TEMPERATURE above THE SURFACE
                 mesh->BCt.type[c1] = 30;
+                mesh->BCc.type[c1] = 30;
                 mesh->T[c1]        = zeroC/scaling.T ;
                 // activate first layer above surface for interpolation
                 mesh->BCp_exp.type[c2] = -1;
-- 
2.43.0


From feaac79e5bc0d4199bdd68e42a841cb7e83963eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 41/72] fix: chemical solver used an uninitialised lower
 diffusivity and read beyond its right-hand side below a free surface

---
 MDLIB/ChemicalRoutines.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index ee8e499..2c77006 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -108,6 +108,9 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     cholmod_factor *Afact;
     cs_di *At;
     
+    // Lower limit of the interpolated surface diffusivity
+    MinMaxArrayVal( mesh->kc_x, nx*nzvx, &mink, &maxk );
+
     // Number of equations
     eqn_t = DoodzCalloc(ncx*ncz, sizeof(int));
     neq   = EvalNumEqChem( mesh, eqn_t );
@@ -145,7 +148,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
             b[eqn]  = transient * mesh->X_n[c2]/ dt;
         }
     }
-    MinMaxArray(b, scaling.E, ncz*ncx, "b chemical_diffusion");
+    MinMaxArray(b, scaling.E, neq, "b chemical_diffusion");
     
     //----------------------------------------------------//
 
-- 
2.43.0


From c4253b1f9b57dc683057c8a312117b2bf3ac7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:22 +0000
Subject: [PATCH 42/72] fix: markers next to a step of the free surface took
 values from the air

When both nodes of a column around a marker are in the air, its value was
interpolated with the undefined air value. Use the other column.
---
 MDLIB/ParticleRoutines.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 18dc3ce..587987a 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -1450,6 +1450,12 @@ private ( k, dxm, dzm, j_part, i_part, distance, iSW, iNW, iSE, iNE, sumW, Xp )
             
 //            inSE = 0; inSW = 0; inNW = 0; inNE = 0;
 
+            // If both nodes of a column are in the air, use the values of the other column
+            int airW = (tag[iSW]==30 || tag[iSW]==31) && (tag[iNW]==30 || tag[iNW]==31);
+            int airE = (tag[iSE]==30 || tag[iSE]==31) && (tag[iNE]==30 || tag[iNE]==31);
+            if (airW && !airE) { iSW = iSE; iNW = iNE; }
+            if (airE && !airW) { iSE = iSW; iNE = iNW; }
+
             if (tag[iSW]!=30 && tag[iSW]!=31) {
                 PartField[k] +=  (1.0-dxm/dx)* (1.0-dzm/dz) * NodeField[iSW];
                 sumW += (1.0-dxm/dx)* (1.0-dzm/dz);
@@ -1680,6 +1686,12 @@ private ( k, dxm, dzm, j_part, i_part, distance, iSW, iNW, iSE, iNE, sumW, Xp, i
             PartField[k] = 0.0;
             sumW         = 0.0;
             
+            // If both nodes of a column are in the air, use the values of the other column
+            int airW = (tag[iSW]==30 || tag[iSW]==31) && (tag[iNW]==30 || tag[iNW]==31);
+            int airE = (tag[iSE]==30 || tag[iSE]==31) && (tag[iNE]==30 || tag[iNE]==31);
+            if (airW && !airE) { iSW = iSE; iNW = iNE; }
+            if (airE && !airW) { iSE = iSW; iNE = iNW; }
+
             if (tag[iSW]!=30 && tag[iSW]!=31) {
                 PartField[k] +=  (1.0-dxm/dx)* (1.0-dzm/dz) * NodeField[iSW];
                 sumW += (1.0-dxm/dx)* (1.0-dzm/dz);
-- 
2.43.0


From 1ae4af86e68b0ae6179e71118b11b49315026c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 43/72] fix: return mapping of the isotropic law drifted off
 the yield surface with dilation or nonlinear viscoplasticity

---
 MDLIB/RheologyDensity.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 7c5056e..81857f6 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -506,6 +506,8 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      cos_fric   = 1.0;
+      sin_fric   = 0.0;
     }
   }
 
@@ -646,7 +648,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = C*cos_fric + Pc*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
@@ -668,6 +670,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         Tiic    = Tii - eta_ve*gdot;
         Tiic    = Tiimin;
         Pc      = P;
+        divp    = 0.0;
       }
 
       *Pcorr  = Pc;
-- 
2.43.0


From 0b05a63343a7c9ce4d46fc3387f014aa563e4a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 44/72] fix: grain boundary sliding had no effect on the
 isotropic flow law

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 81857f6..c666c57 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -111,6 +111,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.elastic)     dfdeta += -params.Eii / params.eta_el;
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
@@ -284,6 +285,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
     // only activate Newton after a couple of steps
     if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_gbs = 0.0, C_exp = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -608,6 +611,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .constant    = constant,
           .eta_cst     = eta_cst,
           .gbs         = gbs,
+          .C_gbs       = C_gbs,
           .d           = d,
           .n_gbs       = n_gbs,
           .eta_up      = eta_up,
@@ -757,6 +761,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From a3a9955827799ce1326f6a5b8524c49b1833a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 45/72] fix: anisotropic law ignored the viscosity limits and
 had no tension and von Mises cut-off

---
 MDLIB/AnisotropyRoutines.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 4f01235..870799a 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -168,6 +168,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       if (materials->Slim[phase] < Tyield) {
         Coh        = materials->Slim[phase];
         Tyield     = materials->Slim[phase];
+        fric       = 0.0;
       }
     }
 
@@ -265,7 +266,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     double Ft   = Tii - Tyield;
     double Fc = Ft, Tiic = Tii;
     double gdot = 0.0; 
-    double eta_pl, divp;
+    double eta_pl, divp = 0.0;
     // double Y1_p_c, Y2_p_c, dFdgdot;
     //double txx = T_rot.xx, tzz = T_rot.zz, tyy = T_rot.yy, txz=T_rot.xz;
     double Pc = P;
@@ -277,6 +278,14 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       gdot = Ft / (eta_ve + eta_vp0 + K*dt*sin(dil)*sin(fric)); // soon*2.0*eta_ve*pow(sin(fric),2)/9.0 * (a1*a1 - a1*a3 + a2*a2 - a2*a3));
       Tiic = Tii - gdot*eta_ve;
       Pc   = P   + K*dt*sin(dil)*gdot; 
+      divp = gdot*sin(dil);
+      // In case return mapping has failed (because of tension), return to a von Mises minimum stress
+      if (Tiic<0.0) {
+        Tiic = 1e5/scaling->S;
+        gdot = (Tii - Tiic)/eta_ve;
+        Pc   = P;
+        divp = 0.0;
+      }
       // txx  = 2*eta_ve*(Exx-gdot*(txx/2/Tii + a1*sin(fric)/3.0) );
       // tzz  = 2*eta_ve*(Ezz-gdot*(tzz/2/Tii + a2*sin(fric)/3.0) );
       // tyy  = -txx-tzz;
@@ -289,7 +298,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       T_rot.zz = 2.0 * (*eta_vep) * E_rot.zz;
       T_rot.xz = 2.0 * (*eta_vep) * E_rot.xz / ani_fac;
       T_rot.yy = -T_rot.xx - T_rot.zz; 
-      *div_pl  = gdot*sin(dil);
+      *div_pl  = divp;
       *Eii_pl  = gdot/2.0;
       Tii      = Tiic;
       //printf("Ft = %2.2e --- Fc = %2.2e %2.2e\n", Tiic, sqrt(Y2( &T_rot, ani_fac )), T_rot.yy );
@@ -303,7 +312,6 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     *Pcorr   = Pc;
     eta      = *eta_vep;
     eta_pl   = Tii/gdot;
-    divp     = gdot*sin(dil);
 
       //-------- Post-Processing
   if ( post_process == 1) {
@@ -349,6 +357,11 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       // printf("eta = %2.6e --- eta_ve = %2.6e --- eta_ve1 = %2.6e\n", eta, eta_ve, 1.0/(1./eta+1./eta_el));
     }
   }
+
+  // Viscosity limiter
+  *eta_vep = MAXV(MINV(*eta_vep, max_eta), min_eta);
+  eta      = MAXV(MINV(eta, max_eta), min_eta);
+
   return eta;
 }
 
-- 
2.43.0


From d55b03d1c6f7a1995a040fb0095e067b31235b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:52 +0000
Subject: [PATCH 46/72] fix: default tolerance of the viscoplastic iterations
 was 1e11

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 4c000a9..0802190 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1131,7 +1131,7 @@ Input ReadInputFile( char *fileName ) {
     Nmodel.nonlin_rel_div    = ReadDou2( fin, "nonlin_rel_div",   1.0e-6 ); // Tolerance for non-linear mechanical solver
     model.min_eta            = ReadDou2( fin, "min_eta", 1e18)/scaling.eta; // Minimum viscosity
     model.max_eta            = ReadDou2( fin, "max_eta", 1e24)/scaling.eta; // Maximum viscosity
-    model.eta_tol            = ReadDou2( fin, "eta_tol", 1e11);             // Tolerance for Viscosity calculation
+    model.eta_tol            = ReadDou2( fin, "eta_tol", 1e-11);            // Tolerance for Viscosity calculation
     model.safe_mode          = ReadInt2( fin, "safe_mode",             0 ); // Activates safe mode: reduces time step if convergence fails
     model.safe_dt_div        = ReadDou2( fin, "safe_dt_div",         5.0 ); // Reduction factor for time step reduction
     model.max_num_stag       = ReadInt2( fin, "max_num_stag",          3 ); // maximum number of stagnation (safe mode)
-- 
2.43.0


From 4084cc66e2e7742ee95d7cda79170e35a7c95b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:40 +0000
Subject: [PATCH 47/72] fix: piecewise strain softening started from zero
 strain instead of its first threshold

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index c666c57..1536bb6 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1170,9 +1170,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From b235840efac46825d15ef9c0dbc6b7de0ea4c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:40 +0000
Subject: [PATCH 48/72] fix: writing an output file overwrote the composition
 of the running model when diffuse_X is set

---
 MDLIB/HDF5Output.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index 0907c90..347af84 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -324,7 +324,10 @@ void WriteOutputHDF5( grid *mesh, markers *particles, surface *topo, markers* to
 
     // ---------------------------------------------------------
     // Smooth rheological contrasts
-    if (model.diffuse_X) P2Mastah( &model, *particles, particles->X,     mesh, mesh->X_n,   mesh->BCp.type,  1, 0, interp, cent, model.interp_stencil);
+    // Use a local array: writing output must not modify the state of the run
+    X = DoodzCalloc((model.Nx-1)*(model.Nz-1), sizeof(double));
+    ArrayEqualArray( X, mesh->X_n, (model.Nx-1)*(model.Nz-1) );
+    if (model.diffuse_X) P2Mastah( &model, *particles, particles->X,     mesh, X,   mesh->BCp.type,  1, 0, interp, cent, model.interp_stencil);
     // ---------------------------------------------------------
     // Cast grid arrays
     Crho_s  = DoodzMalloc( sizeof(float)*model.Nx*model.Nz);
@@ -408,7 +411,7 @@ void WriteOutputHDF5( grid *mesh, markers *particles, surface *topo, markers* to
     ScaleBack( Cd, scaling.L, (model.Nx-1)*(model.Nz-1) );
 
     CX        = DoodzMalloc( sizeof(float)*(model.Nx-1)*(model.Nz-1));
-    DoubleToFloat( mesh->X_n, CX, (model.Nx-1)*(model.Nz-1) );
+    DoubleToFloat( X, CX, (model.Nx-1)*(model.Nz-1) );
 
     Cphi      = DoodzMalloc( sizeof(float)*(model.Nx-1)*(model.Nz-1));
     DoubleToFloat( mesh->phi_n, Cphi, (model.Nx-1)*(model.Nz-1) );
@@ -895,6 +898,7 @@ void WriteOutputHDF5( grid *mesh, markers *particles, surface *topo, markers* to
     DoodzFree( Cstrain_exp );
     DoodzFree( Cstrain_lin );
     DoodzFree( Cstrain_gbs );
+    DoodzFree( X );
     DoodzFree( CX );
     DoodzFree( Cphi );
     DoodzFree( CT );
-- 
2.43.0


From dad705d9214be97faae57409e8a8b051e468dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 49/72] fix: the clock counted the full step when the safe mode
 shortened it

---
 MDLIB/Main_DOODZ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 229c9af..0db84ab 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -818,7 +818,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "\e[1;31mReducing the timestep, and restart the iterations cycle...\e[m\n");
                     printf( "Before reduction: input.model.dt =, %2.2e\n", input.model.dt* input.scaling.t);
                     // ----------------------
+                    input.model.time -= input.model.dt;
                     input.model.dt /= input.model.safe_dt_div;
+                    input.model.time += input.model.dt; // the clock advances by the step that is actually made
                     printf( "Timestep divided by %2.2f => NEW CURRENT input.model.dt =, %2.2e\n", input.model.safe_dt_div, input.model.dt* input.scaling.t);
                     Nmodel.stagnated = 0;
                     // ----------------------
-- 
2.43.0


From 50eb3d46605d39bd5a456de769bdac224a036a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 50/72] fix: the initial surface was never projected on the
 grid

---
 MDLIB/Main_DOODZ.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 0db84ab..628f34e 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -154,10 +154,12 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             BuildInitialTopography(*setup->BuildInitialTopography, &input, &topo_chain_ini );
 
             // Project topography on vertices
-            InterpTopoPart2Grid( &topo, &topo_chain, input.model, mesh, input.scaling, mesh.xg_coord, 0 );
+            InterpTopoPart2Grid( &topo,     &topo_chain,     input.model, mesh, input.scaling, mesh.xg_coord, 0 );
+            InterpTopoPart2Grid( &topo_ini, &topo_chain_ini, input.model, mesh, input.scaling, mesh.xg_coord, 0 );
 
             // Marker chain polynomial fit
-            MarkerChainPolyFit( &topo, &topo_chain, input.model, mesh );
+            MarkerChainPolyFit( &topo,     &topo_chain,     input.model, mesh );
+            MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
             // Call cell flagging routine for free surface calculations
             CellFlagging( &mesh, input.model, topo, input.scaling );
-- 
2.43.0


From 61ad5bc1e9606bbfe4cb17b821d2ccb9b43b175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 51/72] fix: the surface kept only the motion of the last
 advection substep

---
 MDLIB/Main_DOODZ.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 628f34e..48124c0 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -471,7 +471,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
             ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
             ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part ); // save old z
-            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain.Nb_part ); // save old z
+            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part ); // save old z
         }
 
         // Interpolate material properties from particles to nodes
@@ -1048,6 +1048,14 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
                 printf("************** Advection step %03d of %03d: dtsub = %2.2e **************\n", isub, nsub, input.model.dt* input.scaling.t );
 
+                // Topography increments are those of the current substep
+                if (input.model.free_surface == 1 && isub > 0 ) {
+                    ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
+                    ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
+                    ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part );
+                    ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part );
+                }
+
                 // Advect domain boundaries
                 if (input.model.pure_shear_ALE > 0 ) {
                     PureShearALE( &input.model, &mesh, &topo_chain, input.scaling );
-- 
2.43.0


From 341e48efb4d2876686ab5649d37301b996f5ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 52/72] fix: the zero-mean shift came after the surface fit

---
 MDLIB/Main_DOODZ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 48124c0..c767217 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1114,13 +1114,13 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     // Diffuse topography
                     if ( input.model.surface_processes >= 1 )  DiffuseAlongTopography( &mesh, input.model, input.scaling, topo.height, topo.height, mesh.Nx, 0.0, input.model.dt );
 
+                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+
                     // Marker chain polynomial fit
                     MarkerChainPolyFit( &topo,     &topo_chain, input.model, mesh );
                     CorrectTopoIni( &particles, input.materials, &topo_chain_ini, &topo, input.model, input.scaling, &mesh);
                     MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
-                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
-
                     // Sedimentation
                     if ( input.model.surface_processes == 2 ) {
                         AddPartSed( &particles, input.materials, &topo_chain, &topo, input.model, input.scaling, &mesh);
-- 
2.43.0


From e32448b77d591d7b652b6aec7af142bf1df136c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 53/72] fix: surface markers in recycled slots stayed inactive

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 3d07fdc..3cab438 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -268,6 +268,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     topo_chain->Vz[NewInd] = 0.5*(topo->vz[in] + topo->vz[in+1]);
                     topo_chain->z[NewInd]  = topo->b[in]  + topo->a[in]  * topo_chain->x[NewInd];
                     topo_chain->z0[NewInd] = topo->b0[in] + topo->a0[in] * topo_chain->x[NewInd];
+                    topo_chain->phase[NewInd] = 0;
 
                     // Add one particle on the EAST side of the fine column
                     if (recycle==0) NewInd                = topo_chain->Nb_part;
@@ -287,6 +288,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     topo_chain->Vz[NewInd] = 0.5*(topo->vz[in+1] + topo->vz[in+2]);
                     topo_chain->z[NewInd]  = topo->b[in]  + topo->a[in]  * topo_chain->x[NewInd];
                     topo_chain->z0[NewInd] = topo->b0[in] + topo->a0[in] * topo_chain->x[NewInd];
+                    topo_chain->phase[NewInd] = 0;
                 }
                 else {
                     printf("The max. number of topographic particles (currently %d) needs to be increased (number of particles %d)\n", topo_chain->Nb_part_max, topo_chain->Nb_part);
-- 
2.43.0


From ef71597ea714c7c4390a24c17a63b23d47786c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 54/72] fix: path names lost their first character without
 blank and depended on the order of parameters

---
 MDLIB/InputOutput.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 0802190..cd3dbd9 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1749,6 +1749,9 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         line[h]='\0';
     }
 
+    // Start from beginning of the file.
+    rewind(fin);
+
     // Seach for sign 'equal' in the lines
     while ( find == 0 ) {
 
@@ -1780,7 +1783,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         param2[length] = '\0';
 
         // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
+        if ( strcmp(param1, param2) == 0 && ( line[length]=='=' || isspace(line[length]) ) ) {
             find = 1;
             int str_size = 0;
             int h1;
@@ -1788,14 +1791,17 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             for (h=0;h<bufmax;h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<bufmax-h-2; h1++) {
-                        if ( isspace(line[h+2+h1]) || line[h+2+h1]=='\0' ) {
+                    // The value starts after the blanks that follow the equal sign
+                    while ( line[h+1]==' ' || line[h+1]=='\t' ) h++;
+
+                    for (h1=0; h1<bufmax-h-1; h1++) {
+                        if ( isspace(line[h+1+h1]) || line[h+1+h1]=='\0' ) {
                             string1[h1] = '\0';
                             str_size++;
                             break;
                         }
                         else {
-                            string1[h1] = (line[h+2+h1]);
+                            string1[h1] = (line[h+1+h1]);
                             str_size++;
                         }
                     }
-- 
2.43.0


From 9d4fc78314526f35044299991a38d2cd920a571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 55/72] fix: a tab before the equal sign hid the parameter

---
 MDLIB/InputOutput.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index cd3dbd9..27382b3 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1942,7 +1942,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\t' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2013,7 +2013,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
 
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
-        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\t' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2086,7 +2086,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ' && line[InPar_length] != '=' && line[InPar_length] != '\0')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\t' && line[InPar_length] != '=' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2125,7 +2125,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     if (fgets ( phase_line, sizeof(phase_line), fin ) == NULL) phase_line[0] = '\0';
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ' && phase_line[InPar_length] != '=' && phase_line[InPar_length] != '\0')
+                    while(phase_line[InPar_length] != ' ' && phase_line[InPar_length] != '\t' && phase_line[InPar_length] != '=' && phase_line[InPar_length] != '\0')
                     {
                         InPar_length = InPar_length + 1;
                     }
-- 
2.43.0


From e7f57252c3355b0f124f0210151535db144f0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 56/72] fix: power law with reference stress used a wrong
 exponent and scaled twice

---
 MDLIB/FlowLaws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FlowLaws.c b/MDLIB/FlowLaws.c
index 34090c3..01c2699 100755
--- a/MDLIB/FlowLaws.c
+++ b/MDLIB/FlowLaws.c
@@ -75,7 +75,7 @@ void ReadDataPowerLaw( mat_prop* mat, params* model, int k, int number, scale* s
             mat->rpwl[k] = 0.0;
             mat->Qpwl[k] = mat->Qpwl[k];
             mat->Vpwl[k] = 0.0;
-            mat->Apwl[k] = pow( pow(2.0, mat->npwl[k]) * mat->eps0[k]/pow(mat->tau0[k], mat->npwl[k]), -mat->npwl[k]);//pow(mat->eta0[k], -mat->npwl[k]);
+            mat->Apwl[k] = pow(2.0, mat->npwl[k]) * mat->eps0[k]*scaling->E / pow(mat->tau0[k]*scaling->S, mat->npwl[k]); // stress tau0 at strain rate eps0; rescaled here, as A will be scaled later on
             printf("pre exp = %2.2e\n", mat->Apwl[k]);
             mat->fpwl[k] = 0.0;
             mat->apwl[k] = 0.0;
-- 
2.43.0


From d08b2b6951119c0b1979f652c96bcf1199d62c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 57/72] fix: lithostatic pressure ignored the weight of the
 topmost row of cells

---
 MDLIB/GridRoutines.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MDLIB/GridRoutines.c b/MDLIB/GridRoutines.c
index 70996b9..5d5862e 100755
--- a/MDLIB/GridRoutines.c
+++ b/MDLIB/GridRoutines.c
@@ -430,7 +430,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
     Initialise1DArrayDouble( mesh->p_lith,  (mesh->Nx-1)*(mesh->Nz-1), 0.0 );
     
     // Cell center arrays
-    for( l=ncz-2; l>=0; l--) {
+    for( l=ncz-1; l>=0; l--) {
         for( k=0; k<ncx; k++) {
 
             // Initialise vertices variables
@@ -444,7 +444,8 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
 
             // Initialise pressure variables : Compute lithostatic pressure
             if ( mesh->BCp.type[c] != 30 && mesh->BCp.type[c] != 31 ) { // First row (surface)
-                mesh->p_lith[c]  = mesh->p_lith[c+ncx] -  model->gz * mesh->dz * rho_eff;
+                const double p_above = (l<ncz-1) ? mesh->p_lith[c+ncx] : 0.0; // nothing rests on the topmost row
+                mesh->p_lith[c]  = p_above -  model->gz * mesh->dz * rho_eff;
 
             }
         }
-- 
2.43.0


From 186eea82c205c1ece02901625663119020f953b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 58/72] fix: rotated ellipse did not lie at its centre

---
 MDLIB/Setup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..f777244 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1014,8 +1014,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
-- 
2.43.0


From 40c2b8fe4d0c947af7bce278d96980de3e50e6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 59/72] fix: rotated rectangle did not lie at its centre

---
 MDLIB/Setup.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index f777244..d8596ea 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1028,9 +1028,11 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 bool IsRectangleCoordinates(Coordinates coordinates, Rectangle rectangle, double scalingL) {
-  const double wX = coordinates.x * cos(rectangle.angle) - coordinates.z * sin(rectangle.angle);
-  const double wZ = coordinates.x * sin(rectangle.angle) + coordinates.z * cos(rectangle.angle);
-  if (wX >= (rectangle.centreX / scalingL - (rectangle.sizeX / 2) / scalingL) && wX <= (rectangle.centreX / scalingL + (rectangle.sizeX / 2) / scalingL) && wZ >= (rectangle.centreZ / scalingL - (rectangle.sizeZ / 2) / scalingL) && wZ <= (rectangle.centreZ / scalingL + (rectangle.sizeZ / 2) / scalingL)) {
+  const double dX = coordinates.x - rectangle.centreX / scalingL;
+  const double dZ = coordinates.z - rectangle.centreZ / scalingL;
+  const double wX = dX * cos(rectangle.angle) - dZ * sin(rectangle.angle);
+  const double wZ = dX * sin(rectangle.angle) + dZ * cos(rectangle.angle);
+  if (fabs(wX) <= (rectangle.sizeX / 2) / scalingL && fabs(wZ) <= (rectangle.sizeZ / 2) / scalingL) {
     return true;
   } else {
     return false;
-- 
2.43.0


From fd268508a4dafa7d9da15b847de17884c13c2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:49 +0000
Subject: [PATCH 60/72] fix: density was zero with anisotropy and density
 variations

---
 MDLIB/AnisotropyRoutines.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 870799a..2e642f9 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -310,6 +310,11 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
 
     // Update effective viscosity and anisotropy factor
     *Pcorr   = Pc;
+
+    // Updated density for volume changes, only on centroid nodes
+    if (centroid > 0 && model->density_variations == 1) {
+      *rho = EvaluateDensity( phase, T, final_update == 1 ? Pc : P, X0, phi, model, materials );
+    }
     eta      = *eta_vep;
     eta_pl   = Tii/gdot;
 
-- 
2.43.0


From d5eff7e0e7459b6c4bc2be27c49169ce0bee1590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 61/72] fix: Newton matrix dropped the shear of nodes next to
 non-conforming Dirichlet conditions

---
 MDLIB/StokesAssemblyDecoupled.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index b39372c..67574e7 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -362,12 +362,12 @@ void Xjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     
     // New stuff
     double inSWW = 0.0, inNWW = 0.0;
-    if (BCv_t[iVzSWW] == -1) inSWW = 1.0;
-    if (BCv_t[iVzNWW] == -1) inNWW = 1.0;
+    if (BCv_t[iVzSWW] == -1 || BCv_t[iVzSWW] == 11) inSWW = 1.0;
+    if (BCv_t[iVzNWW] == -1 || BCv_t[iVzNWW] == 11) inNWW = 1.0;
     
     double inSEE = 0.0, inNEE = 0.0;
-    if (BCv_t[iVzSEE] == -1) inSEE = 1.0;
-    if (BCv_t[iVzNEE] == -1) inNEE = 1.0;
+    if (BCv_t[iVzSEE] == -1 || BCv_t[iVzSEE] == 11) inSEE = 1.0;
+    if (BCv_t[iVzNEE] == -1 || BCv_t[iVzNEE] == 11) inNEE = 1.0;
     
     wE = inN + inS + inNEv + inSEv;
     wW = inN + inS + inNWv + inSWv;
@@ -881,12 +881,12 @@ void Zjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     
     // New stuff
     double inSSW = 0.0, inSSE = 0.0;
-    if (BCu_t[iVxSSW] == -1 || periodix==1) inSSW = 1.0;
-    if (BCu_t[iVxSSE] == -1 || periodix==1) inSSE = 1.0;
+    if (BCu_t[iVxSSW] == -1 || BCu_t[iVxSSW] == 11 || periodix==1) inSSW = 1.0;
+    if (BCu_t[iVxSSE] == -1 || BCu_t[iVxSSE] == 11 || periodix==1) inSSE = 1.0;
     
     double inNNW = 0.0, inNNE = 0.0;
-    if (BCu_t[iVxNNW] == -1 || periodix==1) inNNW = 1.0;
-    if (BCu_t[iVxNNE] == -1 || periodix==1) inNNE = 1.0;
+    if (BCu_t[iVxNNW] == -1 || BCu_t[iVxNNW] == 11 || periodix==1) inNNW = 1.0;
+    if (BCu_t[iVxNNE] == -1 || BCu_t[iVxNNE] == 11 || periodix==1) inNNE = 1.0;
     
     wE = inN + inS + inNEc + inSEc;
     wW = inN + inS + inNWc + inSWc;
-- 
2.43.0


From 4fe27ea6b7d38997f11ef8747395c5a6351800e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 62/72] fix: Newton matrix put ghost values of non-conforming
 vertical velocities on the wrong node

---
 MDLIB/StokesAssemblyDecoupled.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 67574e7..0ff9b05 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -939,10 +939,10 @@ void Zjacobian_InnerNodesDecoupled3( SparseMat *Stokes, SparseMat *StokesA, Spar
     // Add contribution from non-conforming Dirichlets
     if ( BCv_t[iVzW]   == 11 ) vC  -=  vW ;
     if ( BCv_t[iVzE]   == 11 ) vC  -=  vE ;
-    if ( BCv_t[iVzSW]  == 11 ) vW  -=  vSW;
-    if ( BCv_t[iVzSE]  == 11 ) vE  -=  vSE;
-    if ( BCv_t[iVzNW]  == 11 ) vW  -=  vNW;
-    if ( BCv_t[iVzNE]  == 11 ) vE  -=  vNE;
+    if ( BCv_t[iVzSW]  == 11 ) vS  -=  vSW;
+    if ( BCv_t[iVzSE]  == 11 ) vS  -=  vSE;
+    if ( BCv_t[iVzNW]  == 11 ) vN  -=  vNW;
+    if ( BCv_t[iVzNE]  == 11 ) vN  -=  vNE;
     if ( BCu_t[iVxNNW] == 11 ) uNW -= uNNW;
     if ( BCu_t[iVxNNE] == 11 ) uNE -= uNNE;
     if ( BCu_t[iVxSSW] == 11 ) uSW -= uSSW;
-- 
2.43.0


From 0c83195ba56bff111b56b7462a60131770ae37be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 63/72] fix: the switch to Newton read an uninitialised flag in
 steps after one without Newton iterations

---
 MDLIB/Main_DOODZ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index c767217..02865de 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -666,7 +666,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             if ( Nmodel.nit==0 ) CholmodSolver.Analyze = 1;
             printf("Run CHOLMOD analysis yes/no: %d \n", CholmodSolver.Analyze);
             int Nmax_picard = Nmodel.nit_max;
-            int IsFirstNewtonStep;
+            int IsFirstNewtonStep = 1;
             // If Picard 2 Newton is activated: force initial Newton step
             if ( IsNewtonStep == 1 && Nmodel.Picard2Newton == 1 ) {
               input.model.Newton = 0;
-- 
2.43.0


From 0e47a53cbf2e51c90ed75cbfd697cae9d945f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 64/72] fix: reseeding wrote past its buffers when cells hold
 few markers and past the marker arrays when they are full

---
 MDLIB/ParticleRoutines.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 587987a..9a83f90 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3033,9 +3033,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
         // Re-seeding on a double resolution grid
         if (reseed_markers==1) {
 
-            newi[ith]   = DoodzCalloc( npart[ith]  , sizeof(int));
-            newx[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
-            newz[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
+            newi[ith]   = DoodzCalloc( 4*ncx_e[ith]*ncz_e, sizeof(int)); // at most one new particle per re-seeding volume
+            newx[ith]   = DoodzCalloc( 4*ncx_e[ith]*ncz_e, sizeof(double));
+            newz[ith]   = DoodzCalloc( 4*ncx_e[ith]*ncz_e, sizeof(double));
 
             // Count number of particle per re-seeding volume
             for (ip=0; ip<npart[ith]; ip++) {
@@ -3427,7 +3427,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     nb_new[ith]++;
                 }
                 // Security check
-                if (k>particles->Nb_part_max) {
+                if (k>=particles->Nb_part_max) {
                     printf ("Maximum number of particles exceeded!\n Exiting!\n");
                     exit(1);
                 }
-- 
2.43.0


From f7fb205e3e2070417f45e5b58d8187347034fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 65/72] fix: reseeding next to a periodic boundary ignored the
 markers on its other side

---
 MDLIB/ParticleRoutines.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 9a83f90..8820ad1 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -951,7 +951,7 @@ int FindClosestPhase2( markers* particles, double *newx, double* newz, int ic, i
     // Find phase of a new particle according to its closest neighbour. This function works at the scale of a cell.
     // The array 'ind_list' is list of indices of particle already owing to that cell.
 
-    double dst, min_dst;
+    double dst, min_dst, dist_x;
     int ind, min_index=ind_list[0];
 
     min_dst = (model.xmax-model.xmin);//*sqrt( pow( mesh.dx, 2.0) + pow( mesh.dz, 2.0) );
@@ -961,7 +961,9 @@ int FindClosestPhase2( markers* particles, double *newx, double* newz, int ic, i
         // Loop on the particles inside the current cell, find which one is the closest to the newly created one.
         for (ind=0; ind<nb_neigh; ind++) {
 
-            dst = sqrt( pow (newx[new_ind] - particles->x[ind_list[ind]], 2.0) + pow(newz[new_ind] - particles->z[ind_list[ind]], 2.0) );
+            dist_x = fabs(newx[new_ind] - particles->x[ind_list[ind]]);
+            if (model.periodic_x==1 && dist_x>0.5*(model.xmax-model.xmin)) dist_x = (model.xmax-model.xmin) - dist_x;
+            dst = sqrt( pow (dist_x, 2.0) + pow(newz[new_ind] - particles->z[ind_list[ind]], 2.0) );
 
             if (dst<min_dst) {
                 min_dst = dst;
@@ -975,7 +977,9 @@ int FindClosestPhase2( markers* particles, double *newx, double* newz, int ic, i
 
         for (ind=0; ind<nb_neigh; ind++) {
 
-            dst = sqrt( pow (newx[new_ind] - particles->x[ind_list[ind]], 2.0) + pow(newz[new_ind] - particles->z[ind_list[ind]], 2.0) );
+            dist_x = fabs(newx[new_ind] - particles->x[ind_list[ind]]);
+            if (model.periodic_x==1 && dist_x>0.5*(model.xmax-model.xmin)) dist_x = (model.xmax-model.xmin) - dist_x;
+            dst = sqrt( pow (dist_x, 2.0) + pow(newz[new_ind] - particles->z[ind_list[ind]], 2.0) );
 
             if (dst<min_dst && ( particles->phase[ind_list[ind]] ==  model.surf_ised1 || particles->phase[ind_list[ind]] ==  model.surf_ised2) ) {
                 min_dst = dst;
@@ -3063,21 +3067,21 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                         if (model.periodic_x == 1 ) {
 
                             // Count particles from East side to West side of first thread
-                            if (ic==2*(ncx_e[ith]+0)-1 && ith==0) {
+                            if (ic==2*(ncx_e[ith]+0)-4 && ith==0) {
                                 kc =  0 + jc * 2*(ncx_e[ith]+0);
                                 mpc[ith][kc]++;
                             }
-                            if (ic==2*(ncx_e[ith]+0)-2 && ith==0) {
+                            if (ic==2*(ncx_e[ith]+0)-3 && ith==0) {
                                 kc =  1 + jc * 2*(ncx_e[ith]+0);
                                 mpc[ith][kc]++;
                             }
 
                             // Count particles from West side to East side of last thread
-                            if (ic==0 && ith==nthreads-1) {
+                            if (ic==3 && ith==nthreads-1) {
                                 kc =  2*(ncx_e[ith]+0)-1+ jc * 2*(ncx_e[ith]+0);
                                 mpc[ith][kc]++;
                             }
-                            if (ic==1 && ith==nthreads-1) {
+                            if (ic==2 && ith==nthreads-1) {
                                 kc =  2*(ncx_e[ith]+0)-2+ jc * 2*(ncx_e[ith]+0);
                                 mpc[ith][kc]++;
                             }
@@ -3130,24 +3134,24 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     if (model.periodic_x == 1 ) {
 
                         // Count particles from East side to West side of first thread
-                        if (ic==2*(ncx_e[ith]+0)-1 && ith==0) {
+                        if (ic==2*(ncx_e[ith]+0)-4 && ith==0) {
                             kc =  0 + jc * 2*(ncx_e[ith]+0);
                             ipcell[ith][kc][npcell[ith][kc]] = k;
                             npcell[ith][kc] ++;
                         }
-                        if (ic==2*(ncx_e[ith]+0)-2 && ith==0) {
+                        if (ic==2*(ncx_e[ith]+0)-3 && ith==0) {
                             kc =  1 + jc * 2*(ncx_e[ith]+0);
                             ipcell[ith][kc][npcell[ith][kc]] = k;
                             npcell[ith][kc] ++;
                         }
                         // Count particles from West side to East side of last thread
-                        if (ic==0 && ith==nthreads-1) {
+                        if (ic==3 && ith==nthreads-1) {
                             kc =  2*(ncx_e[ith]+0)-1+ jc * 2*(ncx_e[ith]+0);
                             ipcell[ith][kc][npcell[ith][kc]] = k;
                             npcell[ith][kc] ++;
 
                         }
-                        if (ic==1 && ith==nthreads-1) {
+                        if (ic==2 && ith==nthreads-1) {
                             kc =  2*(ncx_e[ith]+0)-2+ jc * 2*(ncx_e[ith]+0);
                             ipcell[ith][kc][npcell[ith][kc]] = k;
                             npcell[ith][kc] ++;
-- 
2.43.0


From 304b152584aa787858e324ddd56916c00408cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:18 +0000
Subject: [PATCH 66/72] fix: markers entering when the arrays are full
 overwrote another marker

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 8820ad1..334bc60 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -633,6 +633,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
 
                     // Add particles
@@ -660,6 +661,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
                     
                     // Add particles
-- 
2.43.0


From 044a0cd234b9593c2fddc923a26dbde3c594b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:12 +0000
Subject: [PATCH 67/72] fix: directors pointing downwards were mirrored when
 their angle was taken

---
 MDLIB/ParticleRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 334bc60..a82a1a2 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -824,7 +824,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
             .x = particles->x[new_ind],
             .z = particles->z[new_ind]};
         if (input->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
-            double predefined_angle = acos(particles->nx[min_index]);
+            double predefined_angle = atan2(particles->nz[min_index], particles->nx[min_index]);
             double angle = setParticles.SetAnisoAngle(input, coordinates, particles->phase[new_ind], predefined_angle);
             particles->nx[new_ind]           = cos(angle);
             particles->nz[new_ind]           = sin(angle);
@@ -2141,7 +2141,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
                             break;
 
                         case -3: // Anisotropy: angle of director
-                            mark_val = acos(particles.nx[k]);
+                            mark_val = acos(particles.nz[k]<0.0 ? -particles.nx[k] : particles.nx[k]); // director sign is arbitrary: angle in [0, pi]
                             break;
                             
                         default:
-- 
2.43.0


From 86901992f12a54b91e8e115d189988b1920db53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:12 +0000
Subject: [PATCH 68/72] fix: the uppermost cells of a radial model without free
 surface lost heat through closed sides

---
 MDLIB/ThermalRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 500737e..def4a38 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -317,7 +317,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                         }
 
                         // Zero flux in radial coordinates
-                        if (k==0 && model.polar==1 && mesh->BCT_exp.type[c0+(ncx+2)]!=30 ) {
+                        if (k==0 && l<ncz-1 && model.polar==1 && mesh->BCT_exp.type[c0+(ncx+2)]!=30 ) {
                             xn   = mesh->xg_coord[k]-model.dx/2.0;
                             zn   = mesh->zc_coord[l];
                             tet  = atan(zn/xn);
@@ -327,7 +327,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
                             val +=  (1.0-aW)*AW*one_dx_dx;
                         }
 
-                        if (k==ncx-1 && model.polar==1 && mesh->BCT_exp.type[c0+(ncx+2)]!=30 ) {
+                        if (k==ncx-1 && l<ncz-1 && model.polar==1 && mesh->BCT_exp.type[c0+(ncx+2)]!=30 ) {
                             xn   = mesh->xg_coord[k+1]+model.dx/2.0;
                             zn   = mesh->zc_coord[l];
                             tet  = atan(zn/xn);
-- 
2.43.0


From 8381aaf881a3ce67c04ebe098b0fe4b34ade7d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 69/72] fix: running out of corrections, local iterations,
 materials or memory ended with the exit status of success

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 MDLIB/InputOutput.c        | 4 ++--
 MDLIB/Main_DOODZ.c         | 2 +-
 MDLIB/RheologyDensity.c    | 6 +++---
 MDLIB/RheologyParticles.c  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 2e642f9..2934637 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -246,10 +246,10 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
           break;
         } else if (it == nitmax - 1 && (fabs(r/Eii) > tol) ) {
           printf("Visco-Elastic iterations failed!\n");
-          exit(0);
+          exit(1);
         }
     }
-        if (isnan(r))exit(0);
+        if (isnan(r))exit(1);
 
     // if (centroid==0 && index==65) printf("ani 1 - eta_ve = %2.4e Eii_pwl = %2.4e Eii=%2.4e C_pwl=%2.4e tol=%2.2e\n", eta_ve, *Eii_pwl, Eii, C_pwl, model->eta_tol);
 
diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 27382b3..38e7939 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1763,7 +1763,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             free(param1);
             free(param2);
             // return Default;
-            asprintf(&string2, "%s", Default);
+            if (asprintf(&string2, "%s", Default) < 0) { printf("Out of memory. I will exit here ... \n"); exit(1); }
             // int str_size = strlen(Default);
             // int h1;
             // string2 = malloc((str_size+1)*sizeof(char));
@@ -2080,7 +2080,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
             rewind (fin);
-            exit(0);
+            exit(1);
         }
 
         // Determine the length of the parameter string in the current line.
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 02865de..90fd39f 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -836,7 +836,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     printf( "nstag value = %02d - max_num_stag = %02d\n", nstag, input.model.max_num_stag);
                     if (nstag== input.model.max_num_stag) {
                         printf( "CheckDoudzOut!!\n");
-                        exit(0);
+                        exit(1);
                     //-----------------------
                     }
                 }
diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 1536bb6..41574c9 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -104,7 +104,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -277,7 +277,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
       break;
     } else if (it == nitmax - 1 && res_eta > tol) {
       printf("Visco-Elastic iterations failed!\n");
-      exit(0);
+      exit(1);
     }
     // Analytical derivative of function
     double dfdeta = 0.0;
@@ -664,7 +664,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         gdot    -= F_trial / dFdgdot;
 
       }
-      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(0);}
+      if ( noisy>0 && it==nitmax-1 && (res_pl > tol || res_pl/F_trial0 > tol)  ) { printf("Visco-Plastic iterations failed!\n"); exit(1);}
 
       // In case return mapping has failed (because of tension), return to a von Mises minimum stress 
       if (Tiic<0.0) {
diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index b3743f6..8f9a729 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -211,7 +211,7 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
         if (strain_inc[c1]<0) {
             printf("negative strain increment\n");
             printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-            exit(0);
+            exit(1);
         }
         
         strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
@@ -697,7 +697,7 @@ void AccumulatedStrain( grid* mesh, scale scaling, params model, markers* partic
             if (strain_inc[c1]<0) {
                 printf("negative strain increment\n");
                 printf("%2.2e %2.2e %2.2e %2.2e %2.2e %2.2e\n" ,mesh->eII_pl[c1],mesh->eII_pwl[c1],mesh->eII_exp[c1],mesh->eII_lin[c1],mesh->eII_gbs[c1],mesh->eII_el[c1]);
-                exit(0);
+                exit(1);
             }
             
             strain_inc_el[c1]  = model.dt*mesh->eII_el[c1];
-- 
2.43.0


From 6d4234ccfea0a63d39950c1205d460a09613544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:39 +0000
Subject: [PATCH 70/72] fix: the default name of the setup file was written
 past its buffer

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index d8596ea..987ff16 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1062,7 +1062,7 @@ char* DefaultTextFilename( char filename[] ) {
   
   int len_basename = n_basename;
   // char basename[len_basename];
-  char *basename = calloc(len_basename, sizeof(char));
+  char *basename = calloc(len_basename + sizeof(".txt"), sizeof(char));
   start=false, end=false;
   n_basename = 0;
 
-- 
2.43.0


From 68f4a4b357c73770f3380a82f25cd5a37f0817b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 71/72] fix: an output file that could not be written
 completely did not stop the run

---
 MDLIB/HDF5Output.c | 66 ++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/MDLIB/HDF5Output.c b/MDLIB/HDF5Output.c
index 347af84..28421e8 100755
--- a/MDLIB/HDF5Output.c
+++ b/MDLIB/HDF5Output.c
@@ -95,15 +95,25 @@ void DoubleToFloat(double* FieldD, float* FieldF, int size) {
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 // The following routines were originally writen by D. A. May, and used in I2VIS //
+// Stops the run when a call of the HDF5 library (or asprintf) has failed: the output would not be complete
+static hid_t CheckHDF5( hid_t status, const char filename[] )
+{
+	if ( status < 0 ) {
+		printf("Could not write output file %s, exiting...\n", filename);
+		exit(1);
+	}
+	return status;
+}
+
 void CreateOutputHDF5( const char FileName[] )
 {
 	hid_t       file_id;   /* file identifier */
 
 	/* Create a new file using default properties. */
-	file_id = H5Fcreate( FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fcreate( FileName, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), FileName );
 
 	/* Terminate access to the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), FileName );
 }
 
 /*--------------------------------------------------------------------------------------------------------------------*/
@@ -115,19 +125,19 @@ void AddGroupToHDF5( const char filename[], const char group[] )
 	hid_t       file_id, group_id;  /* identifiers */
 	char        *group_name;
 
-	asprintf( &group_name, "/%s", group );
+	CheckHDF5( asprintf( &group_name, "/%s", group ), filename );
 
 	/* Open exisiting file */
-	file_id = H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT), filename );
 
 	/* Create group "ParticleGroup" in the root group using absolute name. */
-	group_id = H5Gcreate(file_id, group_name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
+	group_id = CheckHDF5( H5Gcreate(file_id, group_name, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), filename );
 
 	/* Close group. */
-	H5Gclose(group_id);
+	CheckHDF5( H5Gclose(group_id), filename );
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), filename );
 
 	free( group_name );
 }
@@ -149,16 +159,16 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	int deflation_level, quiet=1;
     int compress=_TRUE_;
 
-	asprintf( &group_name, "/%s", group );
-	asprintf( &dataset_name, "%s/%s", group, field );
+	CheckHDF5( asprintf( &group_name, "/%s", group ), filename );
+	CheckHDF5( asprintf( &dataset_name, "%s/%s", group, field ), filename );
 
 	length = dim * np;
 
 	/* Open exisiting file */
-	file_id = H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT);
+	file_id = CheckHDF5( H5Fopen( filename, H5F_ACC_RDWR, H5P_DEFAULT), filename );
 
 	/* Open group "ParticleGroup" */
-	particle_group_id = H5Gopen(file_id, group_name,H5P_DEFAULT);
+	particle_group_id = CheckHDF5( H5Gopen(file_id, group_name,H5P_DEFAULT), filename );
 
 	/*~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~*/
 
@@ -171,13 +181,13 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 		cdims[0] = (int)chunk_size;
 	}
 
-	plist  = H5Pcreate(H5P_DATASET_CREATE);
-    H5Pset_chunk(plist, 1, cdims);
+	plist  = CheckHDF5( H5Pcreate(H5P_DATASET_CREATE), filename );
+    CheckHDF5( H5Pset_chunk(plist, 1, cdims), filename );
 	deflation_level = 4;
-    H5Pset_deflate( plist, deflation_level);
+    CheckHDF5( H5Pset_deflate( plist, deflation_level), filename );
 
 	/* Create the data space for the dataset. */
-	coord_dataspace_id = H5Screate_simple( 1, &length, NULL);
+	coord_dataspace_id = CheckHDF5( H5Screate_simple( 1, &length, NULL), filename );
 
 	if(compress==_TRUE_) {
 		SET_CREATION_PLIST = plist;
@@ -193,26 +203,26 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 
 	if( d_type == 'd' ) {
 		/* Create a dataset within "group". */
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_DOUBLE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_DOUBLE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
 
 		/* Write the particle dataset. */
-		H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 	}
 
 	else if( d_type == 'c' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_CHAR, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_CHAR, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 
 	else if( d_type == 'i' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_STD_I32BE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_STD_I32BE, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 	else if( d_type == 'f' ) {
-		coord_dataset_id = H5Dcreate( file_id, dataset_name, H5T_NATIVE_FLOAT, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT);
-        H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data );
+		coord_dataset_id = CheckHDF5( H5Dcreate( file_id, dataset_name, H5T_NATIVE_FLOAT, coord_dataspace_id, H5P_DEFAULT,SET_CREATION_PLIST,H5P_DEFAULT), filename );
+        CheckHDF5( H5Dwrite(coord_dataset_id, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, data ), filename );
 
 	}
 
@@ -227,22 +237,22 @@ void AddFieldToGroup( const char filename[], const char group[], const char fiel
 	//status = H5Sclose(attr_dataspace_id);
 
 	/* Close the particle coord dataset. */
-	H5Dclose(coord_dataset_id);
+	CheckHDF5( H5Dclose(coord_dataset_id), filename );
 
 	/* free(dataset_nameP); */
 	/* } */
 
 	/* Close datatspace. */
-	H5Sclose(coord_dataspace_id);
+	CheckHDF5( H5Sclose(coord_dataspace_id), filename );
 
 	/* Close list. */
-	H5Pclose(plist);
+	CheckHDF5( H5Pclose(plist), filename );
 
 	/* Close group. */
-	H5Gclose(particle_group_id);
+	CheckHDF5( H5Gclose(particle_group_id), filename );
 
 	/* Close the file. */
-	H5Fclose(file_id);
+	CheckHDF5( H5Fclose(file_id), filename );
 
 	free(group_name);
 	free(dataset_name);
-- 
2.43.0


From 29a2ee18ed12461722a05202d4aebd54bb75bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:55 +0000
Subject: [PATCH 72/72] fix: markers of the phase just beyond the last one were
 accepted and indexed past the phase arrays

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 987ff16..219d240 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId >= phasesCount) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
-- 
2.43.0

