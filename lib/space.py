"""The bounded configuration space shared by the whole-run checks: a small dimensional ("geo") model, and a list of features
(input switches of the program with the data they need), each of which can be added to the base or combined with others."""
from mc import *

GEO = dict(istep=0, irestart=0, writer=1, writer_step=1, writer_subfolder="./", noisy=0, delete_breakpoints=0,
           eta=1e21, L=1e4, V=1e-9, T=100.0, Nx=8, Nz=7, xmin=-4.0e4, xmax=3.0e4, zmin=-5.0e4, zmax=1.0e4, Nx_part=4, Nz_part=4, min_part_cell=16,
           Nt=3, constant_dt=1, dt=1.5e12, Courant=0.3, RK=4, penalty=1e5, lin_solver=2, diag_scaling=1, lin_abs_div=1e-12, lin_rel_div=1e-12,
           lin_abs_mom=1e-12, lin_rel_mom=1e-12, max_its_PH=20, nit_max=25, nonlin_abs_mom=1e-11, nonlin_rel_mom=1e-11, nonlin_abs_div=1e-11, nonlin_rel_div=1e-11,
           min_eta=1e18, max_eta=1e25, shear_style=0, periodic_x=0, pure_shear_ALE=0, bkg_strain_rate=2e-14, gx=0.0, gz=-10.0, thermal=0, shear_heating=0)
PH0 = dict(rho=3000.0, G=1e10, Cp=1100.0, k=3.0, Qr=1e-6, C=1e90, phi=0.0, psi=0.0, Slim=1e90, alp=3e-5, bet=1e-11, drho=0.0, cstv=1, pwlv=0, linv=0, gbsv=0, expv=0, gs=0,
           eta0=1e21, npwl=1, Qpwl=0.0, k_chem=2e-6, aniso_factor=2.0, aniso_angle=30.0, density_model=1, plast=0)
PH1 = dict(PH0, rho=3300.0, G=3e10, k=5.0, Qr=3e-6, Cp=900.0, eta0=2e22, k_chem=5e-6, aniso_factor=4.0, aniso_angle=110.0, bet=2e-11, alp=2e-5)
PHASES = (PH0, PH1)

# non-symmetric phase layout and smooth temperature
LAYOUT = [[0, 0, 0, 0], [0, 1, 1, 0], [1, 0, 0, 0], [0, 0, 0, 1]]
TNODES = [[1500.0, 1400.0, 1450.0], [1000.0, 1200.0, 1050.0], [800.0, 820.0, 810.0]]
TOPO = [0.3e3, 1.9e3, -1.5e3, 0.8e3]


def ov(model=None, phases=None, both=None, fields=None, **kw):
    return dict(model=model or {}, phases=phases or ({}, {}), both=both or {}, fields=fields or {}, kw=kw)


LOOSE = dict(lin_abs_div=1e-10, lin_rel_div=1e-10, lin_abs_mom=1e-10, lin_rel_mom=1e-10)
FEATURES = {
    "base": ov(),
    "noadv": ov(dict(advection=0)),
    "elastic": ov(dict(elastic=1)),
    "elcomp": ov(dict(elastic=1, compressible=1)),
    "comp": ov(dict(compressible=1)),
    "thermal": ov(dict(thermal=1)),
    "shearheat": ov(dict(thermal=1, shear_heating=1)),
    "adiab1": ov(dict(thermal=1, adiab_heating=1)),
    "adiab2": ov(dict(thermal=1, adiab_heating=2)),
    "fstrain": ov(dict(finite_strain=1)),
    "track": ov(dict(track_T_P_x_z=1)),
    "ale": ov(dict(pure_shear_ALE=1)),
    "inflow": ov(dict(pure_shear_ALE=-1)),
    "simple": ov(dict(shear_style=1)),
    "aniso": ov(dict(anisotropy=1)),
    "anifs": ov(dict(anisotropy=1), both=dict(ani_fstrain=1, ani_fac_max=5.0)),
    "newton": ov(dict(Newton=1)),
    "pic2newt": ov(dict(Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-1)),
    "courant": ov(dict(constant_dt=0)),
    "surf": ov(dict(free_surface=1), topo=TOPO),
    "surfstab": ov(dict(free_surface=1, free_surface_stab=1.0), topo=TOPO),
    "surfdiff": ov(dict(free_surface=1, surface_processes=1, surf_diff=1e-6), topo=TOPO),
    "surfsed": ov(dict(free_surface=1, surface_processes=2, surf_diff=1e-6, surf_sedirate=2e-11, surf_ised1=0, surf_ised2=1, surf_baselev=1.0e3), topo=TOPO),
    "chem": ov(dict(chemical_diffusion=1), fields=dict(X=("lin", 0.5, 5e-6, 4e-6))),
    "melt": ov(dict(melting=1, thermal=1), both=dict(melt=1)),
    "conserv": ov(dict(conserv_interp=1, elastic=1, thermal=1)),
    "subgrid1": ov(dict(subgrid_diffusion=1, thermal=1)),
    "subgrid2": ov(dict(subgrid_diffusion=2, elastic=1, thermal=1)),
    "sten9": ov(dict(interp_stencil=9)),
    "rk1": ov(dict(RK=1)),
    "rk2": ov(dict(RK=2)),
    "powerlaw": ov(dict(LOOSE, min_eta=1e19, max_eta=1e23), both=dict(cstv=0, pwlv=10)),
    "powermix": ov(LOOSE, both=dict(cstv=1, pwlv=40)),
    "power0": ov(phases=(dict(cstv=0, pwlv=1, eta0=7.4e11, npwl=3.0, Qpwl=0.0), {})),
    "linear": ov(both=dict(cstv=1, linv=40, gs_ref=1e-3)),
    "gbs": ov(both=dict(cstv=1, gbsv=40, gs_ref=1e-3)),
    "expo": ov(both=dict(cstv=1, expv=40)),
    "plast": ov(both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20, n_vp=1.0)),
    "dilat": ov(dict(elastic=1, compressible=1), both=dict(plast=1, C=2e7, phi=10.0, psi=5.0, eta_vp=1e20, n_vp=1.0)),
    "soft": ov(both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20, coh_soft=1, phi_soft=1, Ce=1e7, phie=5.0, plss=0.01, plse=0.05)),
    "etaharm": ov(dict(eta_average=1)),
    "etageo": ov(dict(eta_average=2)),
    "rot0": ov(dict(elastic=1, stress_rotation=0)),
    "rot2": ov(dict(elastic=1, stress_rotation=2)),
    "noreseed": ov(dict(reseed_markers=0)),
    "noise": ov(dict(marker_noise=1), fields=dict(noise=("lin", 0.1, 1e-6, -2e-6))),
    "zerotopo": ov(dict(free_surface=1, zero_mean_topo=1), topo=TOPO),
    "oop": ov(dict(out_of_plane=1)),
    "bkgdiv": ov(dict(bkg_div_rate=-1e-15, compressible=1)),
    "transm": ov(phases=(dict(transmutation=1, transmutation_phase=1, transmutation_temperature=1300.0), {})),
    "fixT": ov(dict(fix_temperature=1, thermal=1), extra=["fixT 500.0 2e-7"]),
    "drho0": ov(both=dict(density_model=0)),
    "drho3": ov(both=dict(density_model=3)),
    "reac": ov(phases=(dict(reac_soft=1, reac_phase=1, Pr=5e8, dPr=2e8, tau_kin=1e12), {})),
    "densvar": ov(dict(density_variations=1, elastic=1, compressible=1, chemical_production=1), phases=(dict(reac_soft=1, reac_phase=1, Pr=5e8, dPr=2e8, tau_kin=1e12), {}), both=dict(density_model=3)),
    "polar": ov(dict(polar=1)),
    "phasemix": ov(dict(diffuse_X=1, diffusion_length=5e3), both=dict(phase_mix=1)),
    "res0": ov(dict(residual_form=0)),
    "diag0": ov(dict(diag_scaling=0)),
    "symprec": ov(dict(preconditioner=-1)),
    "minpart": ov(dict(min_part_cell=9, Nx_part=3, Nz_part=3)),
    "crazy": ov(dict(thermal=1), extra=["crazy 3.0 1 1"]),
    "dual": ov(fields=dict(dual=("grid", [[1, 0], [0, 1]]))),
    "litho": ov(dict(initial_cooling=1, cooling_duration=1e14, thermal=1)),
    "tpert": ov(dict(therm_perturb=1, therm_perturb_x0=1e4, therm_perturb_z0=-2e4, therm_perturb_rad_x=1e4, therm_perturb_rad_z=1e4, therm_perturb_dT=50.0, thermal=1)),
    "preload": ov(dict(preload=1, elastic=1), fields=dict(Txx=("lin", 1e7, 0, 0), Tzz=("lin", -1e7, 0, 0), Txz=("lin", 5e6, 100.0, 0))),
    "lin1": ov(dict(lin_solver=1)),
    "wstep2": ov(dict(writer_step=2, Nt=4)),
    "dtred": ov(dict(dt_reduction_factor=0.5, constant_dt=0)),
    "dtmax": ov(dict(dt_max=5e11, constant_dt=0)),
}

# further features, used one at a time (and not in pairs) by the whole-run checks: variants of the switches above, boundary-condition kinds, output modes
BT0 = dict(N=(1, 800.0), S=(1, 1500.0))
HOT = [[1900.0, 1700.0, 1850.0], [1200.0, 1550.0, 1300.0], [250.0, 320.0, 180.0]]
_soft = dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20, coh_soft=1, phi_soft=1, Ce=1e7, phie=5.0, plss=0.01, plse=0.05)
_ani = dict(anisotropy=1)
_surf = dict(free_surface=1)
STEP = [-1.3e4, 2.0e3, 1.0e3, -2.1e4, -1.7e4]      # topography with steps of more than a cell: air to the west, east and north of rock cells
XFEATURES = {
    "x.stepFS": ov(dict(_surf, thermal=1, shear_heating=1), topo=STEP, bct=dict(S=(1, 1500.0), FS=(1, 293.0))), "x.stepch": ov(dict(_surf, chemical_diffusion=1), topo=STEP, fields=dict(X=("lin", 0.5, 5e-6, 4e-6)), bcc=dict(FS=(1, 0.2))),
    "x.step": ov(dict(_surf, elastic=1), topo=STEP), "x.stepstab": ov(dict(_surf, free_surface_stab=1.0), topo=STEP), "x.stepani": ov(dict(_surf, anisotropy=1, elastic=1), topo=STEP), "x.stepdiff": ov(dict(_surf, surface_processes=1, surf_diff=1e-6), topo=STEP),
    "x.stepnew": ov(dict(_surf, Newton=1, elastic=1, compressible=1), topo=STEP), "x.stepsed": ov(dict(_surf, surface_processes=2, surf_diff=1e-6, surf_sedirate=2e-11, surf_ised1=0, surf_ised2=1, surf_baselev=-1.0e4), topo=STEP),
    "x.steppol": ov(dict(_surf, polar=1, thermal=1, zmin=6.32e6, zmax=6.38e6, bkg_strain_rate=1e-20), topo=[6.37e6 + h for h in STEP]),
    "x.anoisy": ov(dict(_ani, noisy=1)), "x.anifsavg0": ov(dict(_ani, ani_average=0), both=dict(ani_fstrain=1, ani_fac_max=5.0)), "x.anifsavg2": ov(dict(_ani, ani_average=2), both=dict(ani_fstrain=1, ani_fac_max=5.0)),
    "x.aniharm": ov(dict(_ani, eta_average=1)), "x.anigeo": ov(dict(_ani, eta_average=2)), "x.anilin": ov(dict(_ani), both=dict(cstv=1, linv=40, gs_ref=1e-3)), "x.aniexpo": ov(dict(_ani), both=dict(cstv=1, expv=40)),
    "x.anipow": ov(dict(_ani), both=dict(cstv=1, pwlv=40)), "x.aniplast": ov(dict(_ani), both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20)), "x.aniangle": ov(dict(_ani, marker_aniso_angle=1), fields=dict(angle=("lin", 0.5, 1e-5, 2e-5))),
    "x.aniangin": ov(dict(_ani, marker_aniso_angle=1, pure_shear_ALE=-1), fields=dict(angle=("lin", 0.5, 1e-5, 2e-5))), "x.anisurf": ov(dict(_ani, free_surface=1, writer_markers=1), topo=TOPO), "x.anipolar": ov(dict(_ani, polar=1)),
    "x.anicomp": ov(dict(_ani, elastic=1, compressible=1)), "x.anidbg": ov(dict(_ani, writer_debug=1)), "x.anitherm": ov(dict(_ani, thermal=1, shear_heating=1)),
    "x.nplharm": ov(dict(Newton=1, eta_average=1, elastic=1), both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20)), "x.nplgeo": ov(dict(Newton=1, eta_average=2, elastic=1), both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20)),
    "x.npow": ov(dict(LOOSE, Newton=1), both=dict(cstv=1, pwlv=40)), "x.nlin": ov(dict(LOOSE, Newton=1), both=dict(cstv=1, linv=40, gs_ref=1e-3)), "x.nexp": ov(dict(Newton=1), both=dict(cstv=1, expv=40)),
    "x.slim": ov(both=dict(plast=1, C=2e7, phi=10.0, Slim=3e7, eta_vp=1e20)), "x.soft0": ov(dict(smooth_softening=0), both=_soft),
    "x.psisoft": ov(dict(elastic=1, compressible=1), both=dict(_soft, psi=5.0, psi_soft=1, psie=1.0)), "x.softharm": ov(dict(eta_average=1, elastic=1, compressible=1), both=dict(_soft, psi=5.0, psi_soft=1, psie=1.0)),
    "x.softgeo": ov(dict(eta_average=2, elastic=1, compressible=1), both=dict(_soft, psi=5.0, psi_soft=1, psie=1.0)), "x.yield2": ov(both=dict(plast=1, **{"yield": 2}, C=2e7, phi=10.0, eta_vp=1e20)),
    "x.polth": ov(dict(polar=1, thermal=1, shear_heating=1)), "x.polths": ov(dict(_surf, polar=1, thermal=1, zmin=6.32e6, zmax=6.38e6, bkg_strain_rate=1e-20), topo=[6.37e6 + h for h in TOPO]), "x.polch": ov(dict(polar=1, chemical_diffusion=1), fields=dict(X=("lin", 0.5, 5e-6, 4e-6))),
    "x.dn0": ov(dict(direct_neighbour=0, min_part_cell=18, dt=4e12)), "x.dn1": ov(dict(direct_neighbour=1, min_part_cell=18, dt=4e12)), "x.dn1in": ov(dict(direct_neighbour=1, pure_shear_ALE=-1, dt=4e12)), "x.dn0s": ov(dict(_surf, direct_neighbour=1, min_part_cell=18, dt=4e12), topo=TOPO),
    "x.bals": ov(dict(_surf, balance_boundaries=1), bcvx=dict(W=(0, 1e-9), E=(0, -1e-9)), extra=["vcut -2.5e4"], topo=TOPO),
    "x.btWE": ov(dict(thermal=1), bct=dict(BT0, W=(1, 1000.0), E=(1, 1100.0))), "x.btN0": ov(dict(thermal=1), bct=dict(N=(0, 0.03), S=(0, -0.02), W=(0, 0.01), E=(0, -0.01))), "x.btper": ov(dict(thermal=1, shear_style=1), bct=dict(BT0, W=(-2, 0.0), E=(-2, 0.0))),
    "x.btFS": ov(dict(_surf, thermal=1), topo=TOPO, bct=dict(S=(1, 1500.0), FS=(1, 293.0))), "x.btFS2": ov(dict(_surf, thermal=1, shear_heating=1), topo=TOPO, bct=dict(S=(0, 0.03), FS=(1, 293.0))),
    "x.bc1": ov(dict(chemical_diffusion=1), fields=dict(X=("lin", 0.5, 5e-6, 4e-6)), bcc=dict(N=(1, 0.1), S=(1, 0.7))), "x.bc2": ov(dict(chemical_diffusion=1), fields=dict(X=("lin", 0.5, 5e-6, 4e-6)), bcc=dict(W=(1, 0.1), E=(1, 0.7))),
    "x.bcper": ov(dict(chemical_diffusion=1, shear_style=1), fields=dict(X=("lin", 0.5, 5e-6, 4e-6)), bcc=dict(W=(-2, 0.0), E=(-2, 0.0))), "x.bcFS": ov(dict(_surf, chemical_diffusion=1), topo=TOPO, fields=dict(X=("lin", 0.5, 5e-6, 4e-6)), bcc=dict(FS=(1, 0.2))),
    "x.vxW2": ov(bcvx=dict(W=(2, 0.0))), "x.vxE2": ov(bcvx=dict(E=(2, 0.0))), "x.vzS2": ov(bcvz=dict(N=(2, 0.0))), "x.vz11": ov(bcvz=dict(W=(11, 0.0), E=(11, 0.0))), "x.vx11": ov(bcvx=dict(N=(11, 0.0), S=(11, 0.0))), "x.vNS": ov(bcvz=dict(N=(2, 0.0)), bcvx=dict(W=(2, 0.0)), both={}),
    "x.sp5": ov(dict(_surf, surface_processes=5, surf_Winc=1.5e4, surf_Vinc=1e-10), topo=TOPO), "x.sp5stab": ov(dict(_surf, surface_processes=5, surf_Winc=1.5e4, surf_Vinc=1e-10, free_surface_stab=1.0, constant_dt=0), topo=TOPO),
    "x.sp3": ov(dict(_surf, surface_processes=3, surf_diff=1e-6, surf_sedirate=2e-11, surf_ised1=0, surf_ised2=1, surf_baselev=1.0e3), topo=TOPO), "x.sp4": ov(dict(_surf, surface_processes=4, surf_diff=1e-6, surf_sedirate=2e-11, surf_ised1=0, surf_ised2=1, surf_baselev=1.0e3), topo=TOPO),
    "x.dtmin": ov(dict(dt_min=2e12, constant_dt=0)), "x.still": ov(dict(constant_dt=0, bkg_strain_rate=1e-30, gz=0.0)), "x.topo0": ov(dict(_surf, topo_update=0), topo=TOPO), "x.surfmk": ov(dict(_surf, writer_markers=1), topo=TOPO), "x.surfdbg": ov(dict(_surf, writer_debug=1), topo=TOPO),
    "x.chemdt": ov(dict(constant_dt=0, chemical_production=1), phases=(dict(reac_soft=1, reac_phase=1, Pr=5e8, dPr=2e8, tau_kin=1e12), {})),
    "x.melt10": ov(dict(melting=1, thermal=1), both=dict(melt=10)), "x.melt11": ov(dict(melting=1, thermal=1), both=dict(melt=11)), "x.melt40": ov(dict(melting=1, thermal=1), both=dict(melt=40)), "x.melt41": ov(dict(melting=1, thermal=1), both=dict(melt=41)),
    "x.maps": ov(dict(deformation_maps=1, nT=3, nE=3, nd=2), both=dict(cstv=1, pwlv=40, linv=40)), "x.gxstab": ov(dict(_surf, free_surface_stab=1.0, gx=2.0), topo=TOPO), "x.gx": ov(dict(gx=3.0)), "x.nsurf": ov(dict(_surf, Newton=1, free_surface_stab=1.0), topo=TOPO), "x.surfper": ov(dict(_surf, shear_style=1), topo=[0.8e3, 1.9e3, -1.5e3, 0.8e3]),
    "x.alesurf": ov(dict(_surf, pure_shear_ALE=1), topo=TOPO), "x.ale2": ov(dict(_surf, pure_shear_ALE=2), topo=TOPO), "x.insurf": ov(dict(_surf, pure_shear_ALE=-1), topo=TOPO),
    "x.p2n": ov(dict(LOOSE, Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-3), both=dict(cstv=1, pwlv=40)), "x.p2nits": ov(dict(LOOSE, Newton=1, Picard2Newton=1, Picard2Newton_tol=1e-30, max_its_Pic=2), both=dict(cstv=1, pwlv=40)),
    "x.safe": ov(dict(safe_mode=1, nit_max=2, constant_dt=0), both=dict(plast=1, C=2e7, phi=10.0, eta_vp=1e20)), "x.grow": ov(dict(let_res_grow=1)), "x.ls": ov(dict(LOOSE, line_search=1), both=dict(cstv=1, pwlv=40)),
    "x.den4": ov(both=dict(density_model=4), files={"PHASE_DIAGRAMS/QuartzCoesite600C.bin": "IMPORT/QuartzCoesite600C.bin"}), "x.den5": ov(both=dict(density_model=5)),
    "x.fields": ov(dict(finite_strain=1, elastic=1), fields=dict(d=("lin", 1e-3, 1e-9, 0), phi=("lin", 0.1, 0, 1e-7), P=("lin", 5e8, 0, -3e4), Vx=("lin", 0, -2e-14, 0), Vz=("lin", 0, 0, 2e-14), Fxx=("lin", 1.1, 0, 0), Fxz=("lin", 0.2, 0, 0), Fzx=("lin", 0.1, 0, 0), Fzz=("lin", 0.9, 0, 0), X=("lin", 0.5, 5e-6, 4e-6))),
    "x.grain": ov(both=dict(cstv=1, linv=40, gs_ref=1e-3), fields=dict(d=("lin", 1e-3, 1e-9, 0))), "x.savem": ov(dict(save_initial_markers=1)), "x.gsbkg": ov(dict(bkg_pressure=1e8, bkg_temperature=300.0)), "x.ini": ov(dict(initial_noise=1)), "x.autopen": ov(dict(auto_penalty=1.0)),
    "x.ss2": ov(dict(shear_style=2)), "x.lay": ov(dict(layering=1)), "x.elth": ov(dict(elastic=1, compressible=1, thermal=1, shear_heating=1, adiab_heating=2, subgrid_diffusion=2)), "x.mix1": ov(dict(diffuse_X=1, diffusion_length=5e3, diffuse_avg=1), both=dict(phase_mix=1)), "x.mix2": ov(dict(diffuse_X=1, diffusion_length=5e3, diffuse_avg=2), both=dict(phase_mix=1)),
    "x.astvol": ov(dict(LOOSE, force_act_vol_ast=1, act_vol_dis_ast=8e-6, act_vol_dif_ast=5e-6, force_melt_weak=1, melt_weak=10.0), both=dict(cstv=1, pwlv=40)), "x.transm-": ov(phases=({}, dict(transmutation=-1, transmutation_phase=0, transmutation_temperature=1100.0))),
    "x.hotexp": ov(both=dict(cstv=1, expv=40), fields=dict(T=("nodes", HOT))), "x.hotpow": ov(dict(LOOSE), both=dict(cstv=1, pwlv=40, linv=40, gs_ref=1e-3), fields=dict(T=("nodes", HOT))), "x.hotani": ov(dict(_ani), both=dict(cstv=1, expv=40), fields=dict(T=("nodes", HOT))),
    "x.hotmelt": ov(dict(melting=1, thermal=1, shear_heating=1), both=dict(melt=40), fields=dict(T=("nodes", HOT))), "x.hotmelt11": ov(dict(melting=1, thermal=1), both=dict(melt=11), fields=dict(T=("nodes", HOT))),
    "x.tmpl2": ov(tmpl=(2, 2)), "x.tmpl1": ov(tmpl=(1, 1)), "x.bcp0": ov(dict(_surf), topo=TOPO, bcp=dict(NE=0, NW=0)), "x.wm": ov(dict(writer_markers=1, elastic=1, finite_strain=1, track_T_P_x_z=1, thermal=1)),
}


def chaotic(names):
    """combinations whose iterations do not converge (yield or density jumps inside the iteration): round-off is amplified without bound"""
    s = set(names)
    return bool(s & {"aniso", "anifs"} and s & {"plast", "dilat", "soft", "densvar"} or "densvar" in s and s & {"plast", "dilat", "soft", "zerotopo"}
                or "dilat" in s and s & {"courant", "dtred", "dtmax"})          # short steps: more than one solution at the onset of yielding


def make(names, model=None, hooks=("out",), realwrite=0, files=None, name=None, scal=None, **kw):
    m = dict(GEO)
    ph = [dict(p) for p in PHASES]
    fields = dict(phase=("grid", LAYOUT), T=("nodes", TNODES))
    k = dict(bct=dict(N=(1, 800.0), S=(1, 1500.0)))
    extra = []
    for n in names:
        f = FEATURES[n] if n in FEATURES else XFEATURES[n]
        m.update(f["model"])
        for i in range(len(ph)):
            ph[i].update(f["both"])
            ph[i].update(f["phases"][i])
        fields.update(f["fields"])
        fk = dict(f["kw"])
        extra += fk.pop("extra", [])
        for fn, src in fk.pop("files", {}).items():
            files = dict(files or {}); files[fn] = open(os.path.join(REPO, src), "rb").read()
        k.update(fk)
    m.update(model or {})
    k.update(kw)
    extra = extra + list(k.pop("extra", []))
    fields.update(k.pop("fields", {}))
    return Job(name or "+".join(names), model=m, phases=ph, fields=fields, hooks=hooks, realwrite=realwrite, files=files, extra=extra, base_model={}, base_phase={}, **k)
