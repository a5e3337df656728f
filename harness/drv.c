// Generic driver: runs the real RunMDOODZ of /repo on a described scenario and dumps the complete
// in-memory state (full precision) at selected call boundaries, observed with ld --wrap.
// usage: drv JOBLIST NPROC    (JOBLIST: one job directory per line; each holds job.txt and in.txt)
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <malloc.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "mdoodz-private.h"
#include "fields.h"
#include "dump.h"

//------------------------------------------------------------------ scenario
typedef struct { int kind, nx, nz; double a,b,c; double *v; } fieldspec; // kind 0 none 1 grid 2 linear 3 bilinear-node grid
enum {F_phase,F_dual,F_T,F_X,F_d,F_phi,F_rho,F_P,F_Txx,F_Tzz,F_Txz,F_noise,F_angle,F_Vx,F_Vz,F_Fxx,F_Fxz,F_Fzx,F_Fzz,F_N};
static const char *fname[F_N]={"phase","dual","T","X","d","phi","rho","P","Txx","Tzz","Txz","noise","angle","Vx","Vz","Fxx","Fxz","Fzx","Fzz"};
static fieldspec F[F_N];
static double bx0=-1,bx1=1,bz0=-1,bz1=1;        // SI box of the field grids
static int ntopo; static double *topoh; static int topophase=0, have_topo=0, have_topophase=0;
typedef struct { int set,type; double a,b,c; } bcspec;
static bcspec BVx[16],BVz[16],BT[16],BCc_[16]; static int BP[16],BPset;
static int tmplVx=0,tmplVz=0; static double vcut=1e300;
static const char *posn[]={"NE","NW","SE","SW","I","N","S","W","E","FS"};
static char hooks[4096]=" ";
static int realwrite=1, maxsnap=1000000, mut_n; static struct {char k[64]; double v;} mut[64];
static int poison=-1, nodump=0;
static int call_only_validate=0;

static int hooked(const char *n){ char b[80]; snprintf(b,80," %s ",n); return strstr(hooks,b)!=NULL; }

static double feval(int f, double x, double z, double def){
  fieldspec *s=&F[f];
  if (!s->kind) return def;
  if (s->kind==2) return s->a+s->b*x+s->c*z;
  double fx=(x-bx0)/(bx1-bx0), fz=(z-bz0)/(bz1-bz0);
  if (s->kind==1) {
    int i=(int)floor(fx*s->nx), j=(int)floor(fz*s->nz);
    if(i<0)i=0; if(i>=s->nx)i=s->nx-1; if(j<0)j=0; if(j>=s->nz)j=s->nz-1;
    return s->v[i+j*s->nx];
  }
  double gx=fx*(s->nx-1), gz=fz*(s->nz-1);
  int i=(int)floor(gx), j=(int)floor(gz);
  if(i<0)i=0; if(i>s->nx-2)i=s->nx-2; if(j<0)j=0; if(j>s->nz-2)j=s->nz-2;
  double p=gx-i,q=gz-j; double *v=s->v; int n=s->nx;
  return (1-p)*(1-q)*v[i+j*n]+p*(1-q)*v[i+1+j*n]+(1-p)*q*v[i+(j+1)*n]+p*q*v[i+1+(j+1)*n];
}
#define CB(name,ff,sc,def) static double name(MdoodzInput*in,Coordinates c,int ph){return feval(ff,c.x*in->scaling.L,c.z*in->scaling.L,def)/(sc);}
static int nshape=0; static struct { int kind; double p[5]; } shp[8]; static double adjT=-1;   // geometric helpers used by the phase callback; phase change of hot markers
static int inshape(int i,Coordinates c,double L){ double*p=shp[i].p;
  if(shp[i].kind==0){ Ellipse e={p[0],p[1],p[2],p[3],p[4]}; return IsEllipseCoordinates(c,e,L);} Rectangle r={p[0],p[1],p[2],p[3],p[4]}; return IsRectangleCoordinates(c,r,L); }
static int cbAdjust(MdoodzInput*in,Coordinates c,double T,int ph){ return T*in->scaling.T>adjT ? in->model.Nb_phases-1-ph : ph; }
static int cbPhase(MdoodzInput*in,Coordinates c){ for(int i=0;i<nshape;i++) if(inshape(i,c,in->scaling.L)) return 1; return (int)floor(feval(F_phase,c.x*in->scaling.L,c.z*in->scaling.L,0)+0.5);}
static int cbDual(MdoodzInput*in,Coordinates c,int ph){return (int)floor(feval(F_dual,c.x*in->scaling.L,c.z*in->scaling.L,ph)+0.5);}
static double cbT(MdoodzInput*in,Coordinates c){return feval(F_T,c.x*in->scaling.L,c.z*in->scaling.L,273.15)/in->scaling.T;}
static double cbVx(MdoodzInput*in,Coordinates c){return feval(F_Vx,c.x*in->scaling.L,c.z*in->scaling.L,0)/in->scaling.V;}
static double cbVz(MdoodzInput*in,Coordinates c){return feval(F_Vz,c.x*in->scaling.L,c.z*in->scaling.L,0)/in->scaling.V;}
CB(cbX,F_X,1.0,0) CB(cbd,F_d,in->scaling.L,0) CB(cbphi,F_phi,1.0,0) CB(cbrho,F_rho,in->scaling.rho,0)
CB(cbP,F_P,in->scaling.S,0) CB(cbTxx,F_Txx,in->scaling.S,0) CB(cbTzz,F_Tzz,in->scaling.S,0) CB(cbTxz,F_Txz,in->scaling.S,0)
CB(cbnoise,F_noise,1.0,0)
static double cbangle(MdoodzInput*in,Coordinates c,int ph,double pre){return feval(F_angle,c.x*in->scaling.L,c.z*in->scaling.L,0);}
static Tensor2D cbF(MdoodzInput*in,Coordinates c,int ph){Tensor2D t; memset(&t,0,sizeof t); double x=c.x*in->scaling.L,z=c.z*in->scaling.L;
  t.xx=feval(F_Fxx,x,z,1);t.xz=feval(F_Fxz,x,z,0);t.zx=feval(F_Fzx,x,z,0);t.zz=feval(F_Fzz,x,z,1);return t;}
static double cbTopo(MdoodzInput*in,double x){ x*=in->scaling.L; double f=(x-bx0)/(bx1-bx0)*(ntopo-1); int i=(int)floor(f);
  if(i<0)i=0; if(i>ntopo-2)i=ntopo-2; double p=f-i; if (p<0) p=0; if (p>1) p=1; return ((1-p)*topoh[i]+p*topoh[i+1])/in->scaling.L;}
static int cbTopoPhase(MdoodzInput*in,double x){return topophase;}
static SetBC mkbc(bcspec*s,double x,double z,double sc){SetBC b; b.type=s->type; b.value=(s->a+s->b*x+s->c*z)/sc; return b;}
static SetBC cbBCVx(MdoodzInput*in,POSITION p,Coordinates c){ if (BVx[p].set && c.z*in->scaling.L>vcut && (p==W||p==E)) { SetBC b; b.type=BVx[p].type; b.value=0; return b; } if (BVx[p].set) return mkbc(&BVx[p],c.x*in->scaling.L,c.z*in->scaling.L,in->scaling.V);
  if(tmplVx==1) return SetPureShearBCVx(in,p,c); if(tmplVx==2) return SetSimpleShearBCVx(in,p,c); return SetPureOrSimpleShearBCVx(in,p,c);}
static SetBC cbBCVz(MdoodzInput*in,POSITION p,Coordinates c){ if (BVz[p].set) return mkbc(&BVz[p],c.x*in->scaling.L,c.z*in->scaling.L,in->scaling.V);
  if(tmplVz==1) return SetPureShearBCVz(in,p,c); if(tmplVz==2) return SetSimpleShearBCVz(in,p,c); return SetPureOrSimpleShearBCVz(in,p,c);}
static SetBC cbBCT(MdoodzInput*in,POSITION p,Coordinates c,double T){ SetBC b; b.type=0;b.value=0; if(!BT[p].set) return b;
  double sc = BT[p].type==1 ? in->scaling.T : in->scaling.W/(in->scaling.L*in->scaling.L); return mkbc(&BT[p],c.x*in->scaling.L,c.z*in->scaling.L,sc);}
static SetBC cbBCC(MdoodzInput*in,POSITION p,Coordinates c,double T){ SetBC b; b.type=0;b.value=0; if(!BCc_[p].set) return b; return mkbc(&BCc_[p],c.x*in->scaling.L,c.z*in->scaling.L,BCc_[p].type==0?in->scaling.V:1.0);}
static char cbBCP(MdoodzInput*in,POSITION p){ return BP[p]; }
static int crazyn=0,crazyph[20]; static double crazymul;
static double fixT[3]; static int have_fixT=0;
static double cbFixT(MdoodzInput*in,double p){ return (fixT[0]+fixT[1]*p*in->scaling.S)/in->scaling.T; }
static FILE*df;
static void d_text(const char*n,const char*s){ int b[512],i=0; for(;s&&s[i]&&i<512;i++) b[i]=(unsigned char)s[i]; d_put(df,"p.",n,'i',i,b); }
extern int mc_oom_off __attribute__((weak)),mc_oom_all __attribute__((weak)); extern long mc_oom_k __attribute__((weak)),mc_oom_n __attribute__((weak));
static void cbMutate(MdoodzInput*in){
  if (hooked("input")) { // what the program made of the setup file; the run ends here
    d_open(df,"input"); d_model(df,&in->model); d_mat(df,&in->materials); d_scale(df,&in->scaling); d_put(df,"mat.","R",'d',1,&in->materials.R);
    d_text("writer_subfolder",in->model.writer_subfolder); d_text("import_files_dir",in->model.import_files_dir); d_text("import_file",in->model.import_file); d_text("initial_markers_file",in->model.initial_markers_file);
    d_close(df); if(&mc_oom_off){ mc_oom_off=1; FILE*o=fopen("allocs","w"); fprintf(o,"%ld\n",mc_oom_n); fclose(o); } fclose(df); FILE*o=fopen("done","w"); fprintf(o,"ok\n"); fclose(o); _exit(0); }
  if (&mc_oom_off && mc_oom_all>=2) mc_oom_n=0; // count from here on
  if (crazyn) { in->crazyConductivity=calloc(1,sizeof(CrazyConductivity)); in->crazyConductivity->multiplier=crazymul; in->crazyConductivity->nPhases=crazyn;
    in->crazyConductivity->phases=malloc(crazyn*sizeof(int)); memcpy(in->crazyConductivity->phases,crazyph,crazyn*sizeof(int)); }
}

static int pos_of(const char*s){ for(int i=0;i<10;i++) if(!strcmp(s,posn[i])) return i; return -1; }
static void parse(const char*fn){
  FILE*f=fopen(fn,"r"); if(!f){perror(fn);_exit(99);} char k[64],t[64];
  while(fscanf(f,"%63s",k)==1){
    if(!strcmp(k,"box")) { if(fscanf(f,"%lf %lf %lf %lf",&bx0,&bx1,&bz0,&bz1)!=4)_exit(98); }
    else if(!strcmp(k,"field")) { char kind[16]; if(fscanf(f,"%63s %15s",t,kind)!=2)_exit(98); int q=-1; for(int i=0;i<F_N;i++) if(!strcmp(fname[i],t)) q=i; if(q<0)_exit(97);
      if(!strcmp(kind,"lin")) { F[q].kind=2; if(fscanf(f,"%lf %lf %lf",&F[q].a,&F[q].b,&F[q].c)!=3)_exit(98);} 
      else { F[q].kind=!strcmp(kind,"grid")?1:3; if(fscanf(f,"%d %d",&F[q].nx,&F[q].nz)!=2)_exit(98); F[q].v=malloc(sizeof(double)*F[q].nx*F[q].nz); for(int i=0;i<F[q].nx*F[q].nz;i++) if(fscanf(f,"%lf",&F[q].v[i])!=1)_exit(98);} }
    else if(!strcmp(k,"topo")) { if(fscanf(f,"%d",&ntopo)!=1)_exit(98); topoh=malloc(8*ntopo); for(int i=0;i<ntopo;i++) if(fscanf(f,"%lf",&topoh[i])!=1)_exit(98); have_topo=1; }
    else if(!strcmp(k,"topophase")) { if(fscanf(f,"%d",&topophase)!=1)_exit(98); have_topophase=1; }
    else if(!strcmp(k,"bcvx")||!strcmp(k,"bcvz")||!strcmp(k,"bct")||!strcmp(k,"bcc")) { bcspec s; if(fscanf(f,"%63s %d %lf %lf %lf",t,&s.type,&s.a,&s.b,&s.c)!=5)_exit(98); s.set=1; int p=pos_of(t); if(p<0)_exit(97);
      bcspec*B = !strcmp(k,"bcvx")?BVx:!strcmp(k,"bcvz")?BVz:!strcmp(k,"bct")?BT:BCc_; B[p]=s; }
    else if(!strcmp(k,"bcp")) { int ty; if(fscanf(f,"%63s %d",t,&ty)!=2)_exit(98); if(!BPset) for(int i=0;i<16;i++) BP[i]=-1; BPset=1; BP[pos_of(t)]=ty; }
    else if(!strcmp(k,"tmpl")) { if(fscanf(f,"%d %d",&tmplVx,&tmplVz)!=2)_exit(98); }
    else if(!strcmp(k,"vcut")) { if(fscanf(f,"%lf",&vcut)!=1)_exit(98); }
    else if(!strcmp(k,"hook")) { if(fscanf(f,"%63s",t)!=1)_exit(98); strcat(hooks,t); strcat(hooks," "); }
    else if(!strcmp(k,"realwrite")) { if(fscanf(f,"%d",&realwrite)!=1)_exit(98); }
    else if(!strcmp(k,"maxsnap")) { if(fscanf(f,"%d",&maxsnap)!=1)_exit(98); }
    else if(!strcmp(k,"poison")) { if(fscanf(f,"%d",&poison)!=1)_exit(98); }
    else if(!strcmp(k,"crazy")) { if(fscanf(f,"%lf %d",&crazymul,&crazyn)!=2)_exit(98); for(int i=0;i<crazyn;i++) if(fscanf(f,"%d",&crazyph[i])!=1)_exit(98); }
    else if(!strcmp(k,"shape")) { if(fscanf(f,"%d %lf %lf %lf %lf %lf",&shp[nshape].kind,shp[nshape].p,shp[nshape].p+1,shp[nshape].p+2,shp[nshape].p+3,shp[nshape].p+4)!=6)_exit(98); nshape++; }
    else if(!strcmp(k,"adjT")) { if(fscanf(f,"%lf",&adjT)!=1)_exit(98); }
    else if(!strcmp(k,"fixT")) { if(fscanf(f,"%lf %lf",&fixT[0],&fixT[1])!=2)_exit(98); have_fixT=1; }
    else if(!strcmp(k,"env")) { char v[160]; if(fscanf(f,"%63s %159s",t,v)!=2)_exit(98); setenv(t,v,1); if(!strcmp(t,"PERTURB")) mallopt(M_PERTURB,atoi(v)); }
    else { fprintf(stderr,"bad key %s\n",k); _exit(96); }
  }
  fclose(f);
}

//------------------------------------------------------------------ snapshots
static int nsnap=0;
static params *cur_model; // last seen
#include "wraps.h"

extern void vomp_report(void) __attribute__((weak));
static void run_job(const char*dir){
  if(chdir(dir)) _exit(95);
  int fd=open("log",O_CREAT|O_WRONLY|O_TRUNC,0600); dup2(fd,1); dup2(fd,2); close(fd);
  parse("job.txt");
  df=fopen("dump.bin","wb");
  SetParticles_ff sp; memset(&sp,0,sizeof sp);
  if(F[F_phase].kind||nshape) sp.SetPhase=cbPhase; if(adjT>=0) sp.AdjustPhaseToTemperature=cbAdjust; if(F[F_dual].kind) sp.SetDualPhase=cbDual; if(F[F_T].kind) sp.SetTemperature=cbT; if(F[F_Vx].kind) sp.SetHorizontalVelocity=cbVx; if(F[F_Vz].kind) sp.SetVerticalVelocity=cbVz;
  if(F[F_X].kind) sp.SetXComponent=cbX; if(F[F_d].kind) sp.SetGrainSize=cbd; if(F[F_phi].kind) sp.SetPorosity=cbphi; if(F[F_rho].kind) sp.SetDensity=cbrho; if(F[F_P].kind) sp.SetPressure=cbP;
  if(F[F_Txx].kind) sp.SetTxx=cbTxx; if(F[F_Tzz].kind) sp.SetTzz=cbTzz; if(F[F_Txz].kind) sp.SetTxz=cbTxz; if(F[F_noise].kind) sp.SetNoise=cbnoise; if(F[F_angle].kind) sp.SetAnisoAngle=cbangle;
  if(F[F_Fxx].kind||F[F_Fxz].kind||F[F_Fzx].kind||F[F_Fzz].kind) sp.SetDefGrad=cbF;
  SetBCs_ff sb; memset(&sb,0,sizeof sb); sb.SetBCVx=cbBCVx; sb.SetBCVz=cbBCVz; sb.SetBCT=cbBCT; sb.SetBCC=cbBCC; if(BPset) sb.SetBCPType=cbBCP; if(have_fixT) sb.FixTemperature=cbFixT;
  BuildInitialTopography_ff bt; memset(&bt,0,sizeof bt); if(have_topo) bt.SetSurfaceZCoord=cbTopo; if(have_topophase) bt.SetSurfacePhase=cbTopoPhase;
  MdoodzSetup st; memset(&st,0,sizeof st); st.SetParticles=&sp; st.SetBCs=&sb; st.BuildInitialTopography=&bt; st.MutateInput=cbMutate;
  if(getenv("MC_NOCB")) switch(getenv("MC_NOCB")[0]) { case 'x': sb.SetBCVx=NULL; break; case 'z': sb.SetBCVz=NULL; break; case 'b': st.SetBCs=NULL; } // a callback the user forgot
  if(getenv("MC_NAMES")) { // default names of setup files, for every folder x name length x extension
    static const char*dir[]={"","/","a/","/x/yy/","..\\b\\"},*ext[]={".c",".cpp",".C"}; FILE*o=fopen("names","w"); char b[128];
    for(int d=0;d<5;d++) for(int n=1;n<=40;n++) for(int e=0;e<3;e++) { int q=snprintf(b,sizeof b,"%s",dir[d]); for(int i=0;i<n;i++) b[q++]='A'+i%26; snprintf(b+q,sizeof b-q,"%s",ext[e]);
      char*r=DefaultTextFilename(b); fprintf(o,"%s %s\n",b,r); free(r); }
    fclose(o); }
  char *inp=strdup("in.txt");
  if(&mc_oom_off){ const char*e=getenv("MC_OOM"); if(e) sscanf(e,"%ld,%d",&mc_oom_k,&mc_oom_all); d_guard=&mc_oom_off; mc_oom_off=0; }
  RunMDOODZ(inp,&st);
  if(&mc_oom_off){ mc_oom_off=1; FILE*o=fopen("allocs","w"); fprintf(o,"%ld\n",mc_oom_n); fclose(o); }
  free(inp);
  if(df) fclose(df);
  if(vomp_report) vomp_report();
  FILE*o=fopen("done","w"); fprintf(o,"ok\n"); fclose(o);
  fflush(stdout);
}

#ifndef NO_MAIN
int main(int argc,char**argv){
  if(argc==3 && !strcmp(argv[1],"-1")) { run_job(argv[2]); return 0; }
  if(argc<4){fprintf(stderr,"usage\n");return 2;}
  FILE*jl=fopen(argv[1],"r"); if(!jl) return 2; int np=atoi(argv[2]); int tmo=atoi(argv[3]); int run=0;
  char (*dirs)[512]=malloc(512*256); pid_t pids[256]; int used[256]; memset(used,0,sizeof used);
  char line[512]; int more=1;
  setvbuf(stdout,NULL,_IOLBF,0);
  while(more||run){
    while(more && run<np){
      if(!fgets(line,512,jl)){more=0;break;}
      line[strcspn(line,"\n")]=0; if(!line[0]) continue;
      int s=0; while(used[s]) s++;
      strcpy(dirs[s],line);
      fflush(stdout);
      pid_t p=fork();
      if(p==0){ fclose(jl);
        struct rlimit rl={tmo,tmo+1}; setrlimit(RLIMIT_CPU,&rl); struct rlimit rc={0,0}; setrlimit(RLIMIT_CORE,&rc);
        struct rlimit rf={(rlim_t)1<<30,(rlim_t)1<<30}; setrlimit(RLIMIT_FSIZE,&rf);
        alarm(tmo*4+30);
        run_job(dirs[s]); exit(0); }
      pids[s]=p; used[s]=1; run++;
    }
    if(run){ int stt; pid_t p=wait(&stt); for(int s=0;s<256;s++) if(used[s]&&pids[s]==p){ used[s]=0; run--; char fn[600]; snprintf(fn,600,"%s/status",dirs[s]); FILE*o=fopen(fn,"w");
        if(WIFEXITED(stt)) fprintf(o,"exit %d\n",WEXITSTATUS(stt)); else fprintf(o,"signal %d\n",WTERMSIG(stt)); fclose(o); } }
  }
  return 0;
}
#endif
