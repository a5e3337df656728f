static void d_put(FILE*f,const char*pre,const char*name,char ty,long n,const void*p){
  if(!p||n<=0) return; char b[96]; snprintf(b,96,"%s%s",pre,name); int l=strlen(b); fputc(l,f); fwrite(b,1,l,f); fputc(ty,f); fwrite(&n,8,1,f);
  fwrite(p,ty=='d'?8:ty=='i'?4:1,n,f); }
static int*d_guard; // set while a snapshot is written
static void d_open(FILE*f,const char*tag){ if(d_guard) *d_guard=1; fwrite("SNAP",1,4,f); int l=strlen(tag); fputc(l,f); fwrite(tag,1,l,f); }
static void d_close(FILE*f){ fputc(0,f); fflush(f); if(d_guard) *d_guard=0; }
static void d_mesh(FILE*f,grid*m){
  long Nx=m->Nx,Nz=m->Nz,C=(Nx-1)*(Nz-1),V=Nx*Nz,U=Nx*(Nz+1),W=(Nx+1)*Nz,E=(Nx+1)*(Nz+1);
#define X(a) d_put(f,"m.",#a,'d',C,m->a);
  MESH_C(X)
#undef X
#define X(a) d_put(f,"m.",#a,'d',V,m->a);
  MESH_V(X)
#undef X
#define X(a) d_put(f,"m.",#a,'d',U,m->a);
  MESH_U(X)
#undef X
#define X(a) d_put(f,"m.",#a,'d',W,m->a);
  MESH_W(X)
#undef X
  d_put(f,"m.","BCu.type",'c',U,m->BCu.type); d_put(f,"m.","BCu.val",'d',U,m->BCu.val);
  d_put(f,"m.","BCv.type",'c',W,m->BCv.type); d_put(f,"m.","BCv.val",'d',W,m->BCv.val);
  d_put(f,"m.","BCp.type",'c',C,m->BCp.type); d_put(f,"m.","BCp.val",'d',C,m->BCp.val);
  d_put(f,"m.","BCp_exp.type",'c',E,m->BCp_exp.type); d_put(f,"m.","BCp_exp.val",'d',E,m->BCp_exp.val);
  d_put(f,"m.","BCt.type",'c',C,m->BCt.type); d_put(f,"m.","BCt.val",'d',C,m->BCt.val);
  d_put(f,"m.","BCc.type",'c',C,m->BCc.type);
  d_put(f,"m.","BCT_exp.type",'c',E,m->BCT_exp.type); d_put(f,"m.","BCT_exp.val",'d',E,m->BCT_exp.val);
  d_put(f,"m.","BCC_exp.type",'c',E,m->BCC_exp.type); d_put(f,"m.","BCC_exp.val",'d',E,m->BCC_exp.val);
  d_put(f,"m.","BCg.type",'c',V,m->BCg.type);
  d_put(f,"m.","BCt_fine.type",'c',(2*Nx-2)*(2*Nz-2),m->BCt_fine.type);
  d_put(f,"m.","xg_coord",'d',Nx,m->xg_coord); d_put(f,"m.","zg_coord",'d',Nz,m->zg_coord);
  d_put(f,"m.","xc_coord",'d',Nx-1,m->xc_coord); d_put(f,"m.","zc_coord",'d',Nz-1,m->zc_coord);
  d_put(f,"m.","xvz_coord",'d',Nx+1,m->xvz_coord); d_put(f,"m.","zvx_coord",'d',Nz+1,m->zvx_coord);
  d_put(f,"m.","xg_coord_ext",'d',Nx+2,m->xg_coord_ext); d_put(f,"m.","zg_coord_ext",'d',Nz+2,m->zg_coord_ext);
  d_put(f,"m.","nb_part_cell",'i',C,m->nb_part_cell); d_put(f,"m.","nb_part_vert",'i',V,m->nb_part_vert);
  d_put(f,"m.","comp_cells",'i',C,m->comp_cells);
  double s[2]={m->dx,m->dz}; d_put(f,"m.","dxdz",'d',2,s);
}
static void d_phases(FILE*f,grid*m,int n){ long C=(m->Nx-1)*(m->Nz-1),V=m->Nx*m->Nz; char b[32]; for(int k=0;k<n;k++){ sprintf(b,"phase_perc_n%d",k); d_put(f,"m.",b,'d',C,m->phase_perc_n[k]); sprintf(b,"phase_perc_s%d",k); d_put(f,"m.",b,'d',V,m->phase_perc_s[k]);
  sprintf(b,"phase_eta_n%d",k); d_put(f,"m.",b,'d',C,m->phase_eta_n[k]); sprintf(b,"phase_eta_s%d",k); d_put(f,"m.",b,'d',V,m->phase_eta_s[k]); } }
static void d_series(FILE*f,grid*m,int Nt){
#define X(a) d_put(f,"ts.",#a,'d',Nt+1,m->a);
 X(Work_time)X(Uelastic_time)X(Uthermal_time)X(Time_time)X(Short_time)X(P_mean_time)X(T_mean_time)X(sxxd_mean_time)X(szzd_mean_time)X(sxz_mean_time)X(Tii_mean_time)X(exxd_mean_time)X(ezzd_mean_time)X(exz_mean_time)X(Eii_mean_time)
#undef X
}
static void d_part(FILE*f,const char*pre,markers*m){ long N=m->Nb_part;
#define X(a) d_put(f,pre,#a,'d',N,m->a);
  PART_D(X)
#undef X
#define X(a) d_put(f,pre,#a,'i',N,m->a);
  PART_I(X)
#undef X
  int s[6]={m->Nb_part,m->Nb_part_max,m->min_part_cell,m->Nb_part_ini,m->Nx_part,m->Nz_part}; d_put(f,pre,"N",'i',6,s);
}
static void d_chain(FILE*f,const char*pre,markers*m){ long N=m->Nb_part; d_put(f,pre,"x",'d',N,m->x); d_put(f,pre,"z",'d',N,m->z); d_put(f,pre,"Vx",'d',N,m->Vx); d_put(f,pre,"Vz",'d',N,m->Vz); d_put(f,pre,"phase",'i',N,m->phase);
  int s[2]={m->Nb_part,m->Nb_part_max}; d_put(f,pre,"N",'i',2,s); }
static void d_topo(FILE*f,const char*pre,surface*t,int Nx){ d_put(f,pre,"height",'d',Nx,t->height); d_put(f,pre,"height0",'d',Nx,t->height0); d_put(f,pre,"a",'d',Nx-1,t->a); d_put(f,pre,"b",'d',Nx-1,t->b); d_put(f,pre,"vx",'d',Nx,t->vx); d_put(f,pre,"vz",'d',Nx+1,t->vz); }
static void d_model(FILE*f,params*p){ double v;int w;
#define X(a) v=p->a; d_put(f,"p.",#a,'d',1,&v);
  MODEL_D(X)
#undef X
#define X(a) w=p->a; d_put(f,"p.",#a,'i',1,&w);
  MODEL_I(X)
#undef X
  w=p->eta_average; d_put(f,"p.","eta_average",'i',1,&w); w=p->ani_average; d_put(f,"p.","ani_average",'i',1,&w);
}
static void d_scale(FILE*f,scale*s){ double v;
#define X(a) v=s->a; d_put(f,"s.",#a,'d',1,&v);
  SCALE_D(X)
#undef X
}
static void d_mat(FILE*f,mat_prop*m){
#define X(a) d_put(f,"mat.",#a,'d',20,m->a);
  MAT_D(X)
#undef X
#define X(a) d_put(f,"mat.",#a,'i',20,m->a);
  MAT_I(X)
#undef X
}
static void d_nmodel(FILE*f,Nparams*m){ double v;int w;
#define X(a) v=m->a; d_put(f,"n.",#a,'d',1,&v);
  NMODEL_D(X)
#undef X
#define X(a) w=m->a; d_put(f,"n.",#a,'i',1,&w);
  NMODEL_I(X)
#undef X
  if(m->rx_abs){ d_put(f,"n.","rx_abs",'d',m->nit_max+1,m->rx_abs); d_put(f,"n.","rz_abs",'d',m->nit_max+1,m->rz_abs); d_put(f,"n.","rp_abs",'d',m->nit_max+1,m->rp_abs);
    d_put(f,"n.","rx_rel",'d',m->nit_max+1,m->rx_rel); d_put(f,"n.","rz_rel",'d',m->nit_max+1,m->rz_rel); d_put(f,"n.","rp_rel",'d',m->nit_max+1,m->rp_rel); d_put(f,"n.","isNewton",'i',m->nit_max+1,m->LogIsNewtonStep); }
}
