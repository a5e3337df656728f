// weak: a library in which one of these functions no longer exists can still be linked and observed through the others
#pragma weak __real_CohesionFrictionDilationGrid
#pragma weak __real_ShearModCompExpGrid
#pragma weak __real_UpdateAlphaCp
#pragma weak __real_MeltFractionGrid
#pragma weak __real_UpdateDensity
#pragma weak __real_WriteOutputHDF5
#pragma weak __real_WriteOutputHDF5Particles
#pragma weak __real_MakeBreakpointParticles
#pragma weak __real_LoadBreakpointParticles
#pragma weak __real_EnergyDirectSolve
#pragma weak __real_ChemicalDirectSolve
#pragma weak __real_RogerGuntherII
#pragma weak __real_P2Mastah
#pragma weak __real_ParticleInflowCheck
#pragma weak __real_CountPartCell
#pragma weak __real_CountPartCell_OLD
#pragma weak __real_NonNewtonianViscosityGrid
#pragma weak __real_NonNewtonianViscosityGridAniso
// call-boundary observers (linked with -Wl,--wrap=NAME)
static void snap_begin(const char*tag){ d_open(df,tag); nsnap++; }
// length of the step as each part of the step sees it
static void clk(const char*w,int step,double dt){ if(hooked("clock")&&nsnap<maxsnap){ char t[64]; snprintf(t,64,"clock:%s",w); snap_begin(t); d_put(df,"p.","step",'i',1,&step); d_put(df,"p.","dt",'d',1,&dt); d_close(df);} }
static const char*clkid(const void*p){ static const void*q[8]; static char b[16]; int i=0; while(i<7&&q[i]&&q[i]!=p) i++; q[i]=p; snprintf(b,16,"adv%d",i); return b; }
#include "hdf5.h"
// every dataset of a written file, as read back with the HDF5 library
static void d_h5(FILE*f,const char*fn){
  H5E_auto2_t of; void*od; H5Eget_auto2(H5E_DEFAULT,&of,&od); H5Eset_auto2(H5E_DEFAULT,NULL,NULL);
  hid_t h=H5Fopen(fn,H5F_ACC_RDONLY,H5P_DEFAULT); int ok=h>=0; d_put(f,"h.","open",'i',1,&ok);
  if(ok){ H5G_info_t gi; H5Gget_info(h,&gi);
    for(hsize_t i=0;i<gi.nlinks;i++){ char gn[128]; H5Lget_name_by_idx(h,".",H5_INDEX_NAME,H5_ITER_INC,i,gn,128,H5P_DEFAULT); hid_t g=H5Gopen2(h,gn,H5P_DEFAULT); if(g<0) continue;
      H5G_info_t di; H5Gget_info(g,&di);
      for(hsize_t j=0;j<di.nlinks;j++){ char dn[128],nm[300]; H5Lget_name_by_idx(g,".",H5_INDEX_NAME,H5_ITER_INC,j,dn,128,H5P_DEFAULT); hid_t d=H5Dopen2(g,dn,H5P_DEFAULT); if(d<0) continue;
        hid_t sp=H5Dget_space(d), ty=H5Dget_type(d); hssize_t n=H5Sget_simple_extent_npoints(sp); snprintf(nm,300,"%s/%s",gn,dn);
        if(H5Tget_class(ty)==H5T_FLOAT){ double*b=calloc(n+1,sizeof(double)); if(H5Dread(d,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,b)>=0) d_put(f,"h.",nm,'d',n,b); free(b);} 
        else if(H5Tget_class(ty)==H5T_INTEGER){ int*b=calloc(n+1,sizeof(int)); if(H5Dread(d,H5T_NATIVE_INT,H5S_ALL,H5S_ALL,H5P_DEFAULT,b)>=0) d_put(f,"h.",nm,'i',n,b); free(b);} 
        H5Tclose(ty); H5Sclose(sp); H5Dclose(d);} 
      H5Gclose(g);} 
    H5Fclose(h);} 
  H5Eset_auto2(H5E_DEFAULT,of,od);
}
static void d_h5file(const params*mod,const char*name){ char fn[4200]; 
  snprintf(fn,4200,"%s%05d.gzip.h5",name,mod->step); FILE*t=fopen(fn,"rb"); if(!t) snprintf(fn,4200,"%s/%s%05d.gzip.h5",mod->writer_subfolder,name,mod->step); else fclose(t); d_h5(df,fn); }
void __real_WriteOutputHDF5(grid*,markers*,surface*,markers*,params,Nparams,char*,mat_prop,scale);
void __wrap_WriteOutputHDF5(grid*m,markers*p,surface*t,markers*tc,params mod,Nparams nm,char*name,mat_prop mat,scale sc){
  if(hooked("out")&&nsnap<maxsnap){ char tag[96]; snprintf(tag,96,"out:%s",name); snap_begin(tag); d_mesh(df,m); d_phases(df,m,mod.Nb_phases); d_series(df,m,mod.Nt); d_part(df,"k.",p);
    if(mod.free_surface){ d_topo(df,"t.",t,m->Nx); d_chain(df,"tc.",tc);} d_model(df,&mod); d_scale(df,&sc); d_mat(df,&mat); d_nmodel(df,&nm); d_close(df); }
  if(realwrite&1) __real_WriteOutputHDF5(m,p,t,tc,mod,nm,name,mat,sc);
  if(hooked("h5")){ snap_begin("h5"); d_h5file(&mod,name); d_close(df); }
}
void __real_WriteOutputHDF5Particles(grid*,markers*,surface*,markers*,surface*,markers*,params,char*,mat_prop,scale);
void __wrap_WriteOutputHDF5Particles(grid*m,markers*p,surface*t,markers*tc,surface*ti,markers*tci,params mod,char*name,mat_prop mat,scale sc){
  if(hooked("outp")){ char tag[96]; snprintf(tag,96,"outp:%s",name); snap_begin(tag); d_part(df,"k.",p); if(mod.free_surface){ d_topo(df,"t.",t,m->Nx); d_chain(df,"tc.",tc); d_topo(df,"ti.",ti,m->Nx); d_chain(df,"tci.",tci);} d_model(df,&mod); d_scale(df,&sc); d_close(df);}
  if(realwrite&1) __real_WriteOutputHDF5Particles(m,p,t,tc,ti,tci,mod,name,mat,sc);
  if(hooked("h5")){ snap_begin("h5p"); d_h5file(&mod,name); d_close(df); }
}
void __real_MakeBreakpointParticles(markers*,grid*,markers*,markers*,params,surface*,surface*,scale);
void __wrap_MakeBreakpointParticles(markers*p,grid*m,markers*tc,markers*tci,params mod,surface*t,surface*ti,scale sc){
  if(hooked("bp")){ snap_begin("bp"); d_mesh(df,m); d_phases(df,m,mod.Nb_phases); d_part(df,"k.",p); if(mod.free_surface){ d_topo(df,"t.",t,m->Nx); d_chain(df,"tc.",tc); d_topo(df,"ti.",ti,m->Nx); d_chain(df,"tci.",tci);} d_model(df,&mod); d_scale(df,&sc); d_close(df);}
  if(realwrite&2) __real_MakeBreakpointParticles(p,m,tc,tci,mod,t,ti,sc);
}
void __real_EnergyDirectSolve(grid*,params,double*,markers*,double,int,int,scale,int);
void __wrap_EnergyDirectSolve(grid*m,params mod,double*rhs,markers*p,double dt,int sh,int ad,scale sc,int last){
  int h=hooked("energy"); if(mod.step>0) clk("the heat balance",mod.step,dt);
  if(h){ snap_begin("energy:pre"); d_mesh(df,m); d_model(df,&mod); d_scale(df,&sc); d_put(df,"a.","dt",'d',1,&dt); int w[3]={sh,ad,last}; d_put(df,"a.","flags",'i',3,w); d_close(df);}
  __real_EnergyDirectSolve(m,mod,rhs,p,dt,sh,ad,sc,last);
  if(h){ snap_begin("energy:post"); d_mesh(df,m); d_close(df);}
}
void __real_ChemicalDirectSolve(grid*,params,markers*,mat_prop*,double,scale);
void __wrap_ChemicalDirectSolve(grid*m,params mod,markers*p,mat_prop*mat,double dt,scale sc){
  int h=hooked("chem"); if(mod.step>0) clk("the diffusion of composition",mod.step,dt);
  if(h){ snap_begin("chem:pre"); d_mesh(df,m); d_model(df,&mod); d_scale(df,&sc); d_mat(df,mat); d_put(df,"a.","dt",'d',1,&dt); d_close(df);}
  __real_ChemicalDirectSolve(m,mod,p,mat,dt,sc);
  if(h){ snap_begin("chem:post"); d_mesh(df,m); d_close(df);}
}
void __real_RogerGuntherII(markers*,params,grid,int,scale);
void __wrap_RogerGuntherII(markers*p,params mod,grid m,int prec,scale sc){
  clk(clkid(p->x),mod.step,mod.dt); int h=hooked("adv"); int ch=(p->T==NULL)||0;
  if(h){ snap_begin("adv:pre"); d_mesh(df,&m); d_chain(df,"k.",p); if(p->intag) d_put(df,"k.","intag",'i',p->Nb_part,p->intag); d_model(df,&mod); d_scale(df,&sc); d_close(df);}
  __real_RogerGuntherII(p,mod,m,prec,sc);
  if(h){ snap_begin("adv:post"); d_chain(df,"k.",p); if(p->intag) d_put(df,"k.","intag",'i',p->Nb_part,p->intag); d_close(df);}
}
void __real_P2Mastah(params*,markers,DoodzFP*,grid*,double*,char*,int,int,int,int,int);
void __wrap_P2Mastah(params*mod,markers p,DoodzFP*mat,grid*m,double*out,char*tag,int flag,int avg,int prop,int cent,int st){
  __real_P2Mastah(mod,p,mat,m,out,tag,flag,avg,prop,cent,st);
  if(hooked("p2g")&&nsnap<maxsnap){ snap_begin("p2g"); int w[5]={flag,avg,prop,cent,st}; d_put(df,"a.","args",'i',5,w); long Nx=m->Nx,Nz=m->Nz; long n= cent==1?(Nx-1)*(Nz-1):cent==0?Nx*Nz:cent==-1?Nx*(Nz+1):(Nx+1)*Nz;
    d_put(df,"a.","out",'d',n,out); d_put(df,"a.","tag",'c',n,tag); d_put(df,"a.","val",'d',flag==0?20:flag>0?p.Nb_part:0,mat); d_put(df,"k.","x",'d',p.Nb_part,p.x); d_put(df,"k.","z",'d',p.Nb_part,p.z); d_put(df,"k.","phase",'i',p.Nb_part,p.phase);
    if(mod->anisotropy){ d_put(df,"k.","nx",'d',p.Nb_part,p.nx); d_put(df,"k.","nz",'d',p.Nb_part,p.nz);} 
    d_model(df,mod); d_put(df,"m.","xg_coord",'d',Nx,m->xg_coord); d_put(df,"m.","zg_coord",'d',Nz,m->zg_coord);
    char b[32]; if(cent==0||cent==1) for(int k=0;k<mod->Nb_phases;k++){ sprintf(b,"perc%d",k); d_put(df,"a.",b,'d',n,cent?m->phase_perc_n[k]:m->phase_perc_s[k]); }
    d_close(df);} 
}
// fault: markers of a part of the box are lost before a call that refills it.  MC_CULL="call,x0,x1,z0,z1,m,r": every marker of the box fraction whose index is not r modulo m (m=0: all)
static void cull(markers*p,const params*mod){ static int call=0; const char*e=getenv("MC_CULL"); int c,m,r; double a,b,u,v; call++;
  if(!e||sscanf(e,"%d,%lf,%lf,%lf,%lf,%d,%d",&c,&a,&b,&u,&v,&m,&r)!=7||(c&&c!=call)) return;
  for(int k=0;k<p->Nb_part;k++){ double X=(p->x[k]-mod->xmin)/(mod->xmax-mod->xmin),Z=(p->z[k]-mod->zmin)/(mod->zmax-mod->zmin);
    if(X>=a&&X<b&&Z>=u&&Z<v&&(!m||k%m!=r)) p->phase[k]=-1; } }
// every value carried by every marker is made distinct (by about a millionth), so that no two markers or properties can be confused
static void stamp(markers*p){ if(!getenv("MC_STAMP")) return; int f=0;
#define X(a) f++; if(p->a&&strcmp(#a,"x")&&strcmp(#a,"z")&&strcmp(#a,"nx")&&strcmp(#a,"nz")) for(int k=0;k<p->Nb_part;k++) p->a[k]=p->a[k]*(1.0+1e-8*(37.0*(k%997)+f))+1e-10*(41.0*(k%991)+f);
  PART_D(X)
#undef X
}
#define CPC(NAME,TAG) \
void __real_##NAME(markers*,grid*,params,surface,surface,int,scale); \
void __wrap_##NAME(markers*p,grid*m,params mod,surface t,surface ti,int rs,scale sc){ int h=hooked("count"); \
  if(rs){ cull(p,&mod); stamp(p);} \
  if(h){ snap_begin(TAG ":pre"); d_mesh(df,m); d_part(df,"k.",p); d_put(df,"a.","reseed",'i',1,&rs); if(mod.free_surface){ d_topo(df,"t.",&t,m->Nx); d_topo(df,"ti.",&ti,m->Nx);} d_model(df,&mod); d_scale(df,&sc); d_close(df);} \
  __real_##NAME(p,m,mod,t,ti,rs,sc); \
  if(h){ snap_begin(TAG ":post"); d_mesh(df,m); d_phases(df,m,mod.Nb_phases); d_part(df,"k.",p); d_close(df);} }
CPC(CountPartCell,"count1")
CPC(CountPartCell_OLD,"count0")
void __real_ParticleInflowCheck(markers*,grid*,MdoodzInput*,surface,int,SetParticles_ff);
void __wrap_ParticleInflowCheck(markers*p,grid*m,MdoodzInput*in,surface t,int flag,SetParticles_ff sp){ int h=hooked("count"); if(flag==1) stamp(p);
  if(h){ snap_begin("inflow:pre"); d_part(df,"k.",p); d_put(df,"a.","flag",'i',1,&flag); d_model(df,&in->model); d_close(df);}
  __real_ParticleInflowCheck(p,m,in,t,flag,sp);
  if(h){ snap_begin("inflow:post"); d_part(df,"k.",p); d_put(df,"a.","flag",'i',1,&flag); d_close(df);} }
void __real_LoadBreakpointParticles(markers*,grid*,markers*,markers*,params*,surface*,surface*,scale);
void __wrap_LoadBreakpointParticles(markers*p,grid*m,markers*tc,markers*tci,params*mod,surface*t,surface*ti,scale sc){
  __real_LoadBreakpointParticles(p,m,tc,tci,mod,t,ti,sc);
  if(hooked("load")){ snap_begin("load"); d_mesh(df,m); d_phases(df,m,mod->Nb_phases); d_part(df,"k.",p); if(mod->free_surface){ d_topo(df,"t.",t,m->Nx); d_chain(df,"tc.",tc); d_topo(df,"ti.",ti,m->Nx); d_chain(df,"tci.",tci);} d_model(df,mod); d_scale(df,&sc); d_close(df);}
}

// rheology of the grid: the first calls of a run and the last one of every step
#define RHEO(NAME) \
void __real_##NAME(grid*,mat_prop*,params*,Nparams,scale*,int); \
void __wrap_##NAME(grid*m,mat_prop*mat,params*mod,Nparams nm,scale*sc,int fin){ static int nc=0; nc++; int h=hooked("rheo")&&(nc<=3||fin)&&nsnap<maxsnap; \
  __real_##NAME(m,mat,mod,nm,sc,fin); if(mod->step>0) clk("the flow law",mod->step,mod->dt); \
  if(h){ snap_begin(fin?"rheo:final":"rheo:trial"); d_mesh(df,m); d_phases(df,m,mod->Nb_phases); d_model(df,mod); d_scale(df,sc); d_mat(df,mat); d_close(df);} }
RHEO(NonNewtonianViscosityGrid)
RHEO(NonNewtonianViscosityGridAniso)

// material properties of the grid: after each of the routines that set them
#define MATW(NAME,ARGS,CALL,STEP) \
void __real_##NAME ARGS; \
void __wrap_##NAME ARGS { static int nc=0; nc++; __real_##NAME CALL; if(hooked("mat")&&(nc<=2||(STEP)>0)&&nsnap<maxsnap){ snap_begin("mat:" #NAME); d_mesh(df,m); d_phases(df,m,MATMOD->Nb_phases); MATPART d_model(df,MATMOD); d_scale(df,MATSC); d_mat(df,MATMAT); d_close(df);} }
#define MATMOD mod
#define MATSC sc
#define MATMAT mat
#define MATPART
MATW(UpdateDensity,(grid*m,markers*p,mat_prop*mat,params*mod,scale*sc),(m,p,mat,mod,sc),mod->step)
MATW(MeltFractionGrid,(grid*m,markers*p,mat_prop*mat,params*mod,scale*sc),(m,p,mat,mod,sc),mod->step)
MATW(UpdateAlphaCp,(grid*m,markers*p,mat_prop*mat,params*mod,scale*sc),(m,p,mat,mod,sc),mod->step)
#undef MATSC
#define MATSC (&sc)
MATW(ShearModCompExpGrid,(grid*m,mat_prop*mat,params*mod,scale sc),(m,mat,mod,sc),mod->step)
#undef MATMOD
#undef MATMAT
#undef MATPART
#define MATMOD (&mod)
#define MATMAT (&mat)
#define MATPART d_part(df,"k.",p);
MATW(CohesionFrictionDilationGrid,(grid*m,markers*p,mat_prop mat,params mod,scale sc),(m,p,mat,mod,sc),mod.step)

// nonlinear iterations: the residual of every iterate, the iterate before and after every correction, and (MC_FD) the residual at points along the correction (evaluated in a child process, so the run is not disturbed)
static int nl_step=-1,nl_call=0; // corrections computed so far in this step
static void nl_dump(const char*tag,grid*m,params*mod,Nparams*nm,scale*sc,double h){ snap_begin(tag); d_mesh(df,m); d_model(df,mod); d_scale(df,sc); d_nmodel(df,nm); d_put(df,"nl.","h",'d',1,&h); d_put(df,"nl.","call",'i',1,&nl_call); d_close(df); }
void __real_EvaluateStokesResidualDecoupled(SparseMat*,SparseMat*,SparseMat*,SparseMat*,SparseMat*,Nparams*,grid*,params,scale,int);
void __wrap_EvaluateStokesResidualDecoupled(SparseMat*S,SparseMat*A,SparseMat*B,SparseMat*C,SparseMat*D,Nparams*nm,grid*m,params mod,scale sc,int quiet){
  __real_EvaluateStokesResidualDecoupled(S,A,B,C,D,nm,m,mod,sc,quiet);
  if(mod.step!=nl_step){ nl_step=mod.step; nl_call=0; }
  if(hooked("nl")&&nsnap<maxsnap) nl_dump("nl:res",m,&mod,nm,&sc,0);
}
void __real_SolveStokesDefectDecoupled(SparseMat*,SparseMat*,SparseMat*,SparseMat*,SparseMat*,DirectSolver*,Nparams*,grid*,params*,markers*,markers*,surface*,mat_prop,scale,SparseMat*,SparseMat*,SparseMat*);
void __wrap_SolveStokesDefectDecoupled(SparseMat*A,SparseMat*B,SparseMat*C,SparseMat*D,SparseMat*S,DirectSolver*ps,Nparams*nm,grid*m,params*mod,markers*p,markers*tc,surface*t,mat_prop mat,scale sc,SparseMat*JA,SparseMat*JB,SparseMat*JC){
  const char*fd=getenv("MC_FD"),*st=getenv("MC_STAG"); int on=hooked("nl")&&nsnap<maxsnap;
  long U=m->Nx*(m->Nz+1),W=(m->Nx+1)*m->Nz,P=(m->Nx-1)*(m->Nz-1); double*u=0,*v=0,*q=0;
  if(on&&fd){ u=malloc(8*U); v=malloc(8*W); q=malloc(8*P); memcpy(u,m->u_in,8*U); memcpy(v,m->v_in,8*W); memcpy(q,m->p_in,8*P); }
  __real_SolveStokesDefectDecoupled(A,B,C,D,S,ps,nm,m,mod,p,tc,t,mat,sc,JA,JB,JC);
  nl_call++;
  if(st){ int s,k; const char*c=st; while(c&&sscanf(c,"%d:%d",&s,&k)==2){ if(s==mod->step&&k==nl_call) nm->stagnated=1; c=strchr(c,','); if(c) c++; } }   // an environment in which the given correction (counted over all attempts of the step) finds no descent
  if(on) nl_dump("nl:post",m,mod,nm,&sc,0);
  if(on&&fd){ double hs[2]={atof(fd),-atof(fd)};
    for(int i=0;i<2;i++){ fflush(0); pid_t c=fork();
      if(!c){ double h=hs[i]; for(long j=0;j<U;j++) m->u_in[j]=u[j]+h*(m->u_in[j]-u[j]); for(long j=0;j<W;j++) m->v_in[j]=v[j]+h*(m->v_in[j]-v[j]); for(long j=0;j<P;j++) m->p_in[j]=q[j]+h*(m->p_in[j]-q[j]);
        UpdateNonLinearity(m,p,tc,t,mat,mod,nm,sc,0,1.0); __real_EvaluateStokesResidualDecoupled(S,A,B,C,D,nm,m,*mod,sc,1); nl_dump("nl:fd",m,mod,nm,&sc,h); _exit(0); }
      int w; waitpid(c,&w,0); }
    free(u); free(v); free(q); }
}
