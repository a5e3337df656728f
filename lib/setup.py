"""the parameters of the setup file: name, kind, where the value arrives, value when absent, unit (name of the characteristic scale)"""
MODEL = [
    ("istep", "i", "p.istep", 0, "1"),
    ("irestart", "i", "p.irestart", 0, "1"),
    ("writer", "i", "p.writer", 0, "1"),
    ("writer_step", "i", "p.writer_step", 1, "1"),
    ("writer_markers", "i", "p.writer_markers", 0, "1"),
    ("writer_debug", "i", "p.writer_debug", 0, "1"),
    ("noisy", "i", "p.noisy", 1, "1"),
    ("track_T_P_x_z", "i", "p.track_T_P_x_z", 0, "1"),
    ("delete_breakpoints", "i", "p.delete_breakpoints", 1, "1"),
    ("gnuplot_log_res", "i", "p.gnuplot_log_res", 0, "1"),
    ("save_initial_markers", "i", "p.save_initial_markers", 0, "1"),
    ("load_initial_markers", "i", "p.load_initial_markers", 0, "1"),
    ("Nx", "i", "p.Nx", 10, "1"),
    ("Nz", "i", "p.Nz", 10, "1"),
    ("xmin", "d", "p.xmin", -1.0, "L"),
    ("xmax", "d", "p.xmax", 1.0, "L"),
    ("zmin", "d", "p.zmin", -1.0, "L"),
    ("zmax", "d", "p.zmax", 1.0, "L"),
    ("balance_boundaries", "i", "p.balance_boundaries", 0, "1"),
    ("zero_mean_topo", "i", "p.zero_mean_topo", 0, "1"),
    ("Nt", "i", "p.Nt", 1, "1"),
    ("dt", "d", "p.dt", 0.0, "t"),
    ("Courant", "d", "p.Courant", 0.5, "1"),
    ("RK", "i", "p.RK", 4, "1"),
    ("constant_dt", "i", "p.constant_dt", 0, "1"),
    ("stress_rotation", "i", "p.stress_rotation", 1, "1"),
    ("dt_max", "d", "p.dt_max", 1e20, "t"),
    ("dt_min", "d", "p.dt_min", -1e20, "t"),
    ("dt_reduction_factor", "d", "p.dt_reduction_factor", 1, "1"),
    ("mechanical", "i", "p.mechanical", 1, "1"),
    ("advection", "i", "p.advection", 1, "1"),
    ("elastic", "i", "p.elastic", 0, "1"),
    ("thermal", "i", "p.thermal", 0, "1"),
    ("anisotropy", "i", "p.anisotropy", 0, "1"),
    ("polar", "i", "p.polar", 0, "1"),
    ("finite_strain", "i", "p.finite_strain", 0, "1"),
    ("compressible", "i", "p.compressible", 0, "1"),
    ("density_variations", "i", "p.density_variations", 0, "1"),
    ("kinetics", "i", "p.kinetics", 0, "1"),
    ("out_of_plane", "i", "p.out_of_plane", 0, "1"),
    ("melting", "i", "p.melting", 0, "1"),
    ("penalty", "d", "p.penalty", 1.0e3, "1"),
    ("auto_penalty", "d", "p.auto_penalty", 0.0, "1"),
    ("diag_scaling", "i", "p.diag_scaling", 1, "1"),
    ("preconditioner", "i", "p.preconditioner", 0, "1"),
    ("lin_abs_div", "d", "p.lin_abs_div", 1.0e-9, "1"),
    ("lin_rel_div", "d", "p.lin_rel_div", 1.0e-5, "1"),
    ("lin_abs_mom", "d", "p.lin_abs_mom", 1.0e-9, "1"),
    ("lin_rel_mom", "d", "p.lin_rel_mom", 1.0e-5, "1"),
    ("lin_solver", "i", "p.lin_solver", 2, "1"),
    ("max_its_PH", "i", "p.max_its_PH", 10, "1"),
    ("nit_max", "i", "n.nit_max", 1, "1"),
    ("Newton", "i", "p.Newton", 0, "1"),
    ("Picard2Newton", "i", "n.Picard2Newton", 0, "1"),
    ("Picard2Newton_tol", "d", "n.Picard2Newton_tol", 1e-1, "1"),
    ("max_its_Pic", "i", "n.max_its_Pic", 10, "1"),
    ("let_res_grow", "i", "n.let_res_grow", 0, "1"),
    ("max_its_KSP", "i", "p.max_its_KSP", 100, "1"),
    ("rel_tol_KSP", "d", "p.rel_tol_KSP", 1e-4, "1"),
    ("nonlin_abs_mom", "d", "n.nonlin_abs_mom", 1.0e-6, "1"),
    ("nonlin_abs_div", "d", "n.nonlin_abs_div", 1.0e-6, "1"),
    ("nonlin_rel_mom", "d", "n.nonlin_rel_mom", 1.0e-6, "1"),
    ("nonlin_rel_div", "d", "n.nonlin_rel_div", 1.0e-6, "1"),
    ("min_eta", "d", "p.min_eta", 1e18, "eta"),
    ("max_eta", "d", "p.max_eta", 1e24, "eta"),
    ("eta_tol", "d", "p.eta_tol", 1e-11, "1"),
    ("safe_mode", "i", "p.safe_mode", 0, "1"),
    ("safe_dt_div", "d", "p.safe_dt_div", 5.0, "1"),
    ("max_num_stag", "i", "p.max_num_stag", 3, "1"),
    ("line_search", "i", "p.line_search", 0, "1"),
    ("line_search_min", "d", "p.line_search_min", 0.0, "1"),
    ("residual_form", "i", "p.residual_form", 1, "1"),
    ("ani_average", "i", "p.ani_average", 1, "1"),
    ("eta_average", "i", "p.eta_average", 0, "1"),
    ("interp_stencil", "i", "p.interp_stencil", 1, "1"),
    ("subgrid_diffusion", "i", "p.subgrid_diffusion", 0, "1"),
    ("conserv_interp", "i", "p.conserv_interp", 0, "1"),
    ("direct_neighbour", "i", "p.direct_neighbour", 0, "1"),
    ("initial_noise", "i", "p.initial_noise", 0, "1"),
    ("marker_noise", "i", "p.marker_noise", 0, "1"),
    ("reseed_markers", "i", "p.reseed_markers", 1, "1"),
    ("reseed_mode", "i", "p.reseed_mode", 0, "1"),
    ("Nx_part", "i", "k.Nx_part", 4, "1"),
    ("Nz_part", "i", "k.Nz_part", 4, "1"),
    ("min_part_cell", "i", "k.min_part_cell", 16, "1"),
    ("shear_style", "i", "p.shear_style", 0, "1"),
    ("periodic_x", "i", "p.periodic_x", 0, "1"),
    ("pure_shear_ALE", "i", "p.pure_shear_ALE", 0, "1"),
    ("free_surface", "i", "p.free_surface", 0, "1"),
    ("free_surface_stab", "d", "p.free_surface_stab", 0.0, "1"),
    ("topo_update", "i", "p.topo_update", 1, "1"),
    ("initial_cooling", "i", "p.initial_cooling", 0, "1"),
    ("cooling_duration", "d", "p.cooling_duration", 1e9*365.25*3600*24, "t"),
    ("shear_heating", "i", "p.shear_heating", 1, "1"),
    ("adiab_heating", "i", "p.adiab_heating", 0, "1"),
    ("surface_processes", "i", "p.surface_processes", 0, "1"),
    ("marker_aniso_angle", "i", "p.marker_aniso_angle", 0, "1"),
    ("layering", "i", "p.layering", 0, "1"),
    ("chemical_diffusion", "i", "p.chemical_diffusion", 0, "1"),
    ("chemical_production", "i", "p.chemical_production", 0, "1"),
    ("smooth_softening", "i", "p.smooth_softening", 1, "1"),
    ("bkg_strain_rate", "d", "p.bkg_strain_rate", 1e-30, "E"),
    ("bkg_div_rate", "d", "p.bkg_div_rate", 0.0, "E"),
    ("bkg_pressure", "d", "p.bkg_pressure", 0.0, "S"),
    ("bkg_temperature", "d", "p.bkg_temperature", 0.0, "T"),
    ("fix_temperature", "i", "p.fix_temperature", 0, "1"),
    ("surf_diff", "d", "p.surf_diff", 0.0, "L2/t"),
    ("surf_ised1", "i", "p.surf_ised1", 0.0, "1"),
    ("surf_ised2", "i", "p.surf_ised2", 0.0, "1"),
    ("surf_sedirate", "d", "p.surf_sedirate", 0.0, "V"),
    ("surf_baselev", "d", "p.surf_baselev", 0.0, "L"),
    ("surf_Winc", "d", "p.surf_Winc", 0.0, "L"),
    ("surf_Vinc", "d", "p.surf_Vinc", 0.0, "V"),
    ("preload", "i", "p.preload", 0, "1"),
    ("preload_sxxd", "d", "p.preload_sxxd", 0.0, "S"),
    ("preload_szzd", "d", "p.preload_szzd", 0.0, "S"),
    ("preload_sxz", "d", "p.preload_sxz", 0.0, "S"),
    ("therm_perturb", "i", "p.therm_perturb", 0, "1"),
    ("therm_perturb_x0", "d", "p.therm_perturb_x0", 0.0, "L"),
    ("therm_perturb_z0", "d", "p.therm_perturb_z0", 0.0, "L"),
    ("therm_perturb_rad_x", "d", "p.therm_perturb_rad_x", 0.0, "L"),
    ("therm_perturb_rad_z", "d", "p.therm_perturb_rad_z", 0.0, "L"),
    ("therm_perturb_dT", "d", "p.therm_perturb_dT", 0.0, "T"),
    ("force_act_vol_ast", "i", "p.force_act_vol_ast", 0, "1"),
    ("act_vol_dis_ast", "d", "p.act_vol_dis_ast", 0.0, "1"),
    ("act_vol_dif_ast", "d", "p.act_vol_dif_ast", 0.0, "1"),
    ("force_melt_weak", "i", "p.force_melt_weak", 0, "1"),
    ("melt_weak", "d", "p.melt_weak", 0.0, "1"),
    ("user0", "d", "p.user0", 0.0, "1"),
    ("user1", "d", "p.user1", 0.0, "1"),
    ("user2", "d", "p.user2", 0.0, "1"),
    ("user3", "d", "p.user3", 0.0, "1"),
    ("user4", "d", "p.user4", 0.0, "1"),
    ("user5", "d", "p.user5", 0.0, "1"),
    ("user6", "d", "p.user6", 0.0, "1"),
    ("user7", "d", "p.user7", 0.0, "1"),
    ("user8", "d", "p.user8", 0.0, "1"),
    ("user9", "d", "p.user9", 0.0, "1"),
    ("diffuse_X", "i", "p.diffuse_X", 0, "1"),
    ("diffuse_avg", "i", "p.diffuse_avg", 0, "1"),
    ("diffusion_length", "d", "p.diffusion_length", 0.0, "L"),
    ("gx", "d", "p.gx", 0.0, "a"),
    ("gz", "d", "p.gz", 0.0, "a"),
    ("deformation_maps", "i", "p.deformation_maps", 0, "1"),
    ("nT", "i", "p.nT", 11, "1"),
    ("nE", "i", "p.nE", 11, "1"),
    ("nd", "i", "p.nd", 11, "1"),
    ("Tmin", "d", "p.Tmin", 100.0, "degC"),
    ("Tmax", "d", "p.Tmax", 1000.0, "degC"),
    ("Emin", "d", "p.Emin", -30.0, "1"),
    ("Emax", "d", "p.Emax", -4.0, "1"),
    ("dmin", "d", "p.dmin", -7.0, "1"),
    ("dmax", "d", "p.dmax", -2.0, "1"),
    ("Pn", "d", "p.Pn", 5.0e8, "S"),
]
PHASE = [
    ("rho", "d", "mat.rho", 2700.0, "rho"),
    ("G", "d", "mat.G", 1.0e10, "S"),
    ("Cp", "d", "mat.Cp", 1.0e3, "Cp"),
    ("k", "d", "mat.k", 1.0e-6, "k"),
    ("Qr", "d", "mat.Qr", 1.0e-30, "W/L3"),
    ("alp", "d", "mat.alp", 0.0, "1/T"),
    ("bet", "d", "mat.bet", 1.0e-40, "1/S"),
    ("drho", "d", "mat.drho", 0.0, "rho"),
    ("melt", "i", "mat.melt", 0.0, "1"),
    ("plast", "i", "mat.plast", 1.0, "1"),
    ("yield", "i", "mat.yield", 1.0, "1"),
    ("sig_tens", "d", "mat.sig_tens", 1.0e7, "S"),
    ("sig1", "d", "mat.sig1", 1.0e7, "S"),
    ("dsig1", "d", "mat.dsig1", 1.0e7, "S"),
    ("C", "d", "mat.C", 1.0e7, "S"),
    ("phi", "d", "mat.phi", 30.0, "deg"),
    ("psi", "d", "mat.psi", 0.0, "deg"),
    ("Slim", "d", "mat.Slim", 1.0e90, "S"),
    ("n_vp", "d", "mat.n_vp", 1.0, "1"),
    ("eta_vp", "d", "mat.eta_vp", 0.0, "eta"),
    ("coh_soft", "i", "mat.coh_soft", 0.0, "1"),
    ("phi_soft", "i", "mat.phi_soft", 0.0, "1"),
    ("psi_soft", "i", "mat.psi_soft", 0.0, "1"),
    ("Ce", "d", "mat.C_end", "=C", "S"),
    ("phie", "d", "mat.phi_end", "=phi", "deg"),
    ("psie", "d", "mat.psi_end", "=psi", "deg"),
    ("plss", "d", "mat.pls_start", 1.0, "1"),
    ("plse", "d", "mat.pls_end", 2.0, "1"),
    ("cstv", "i", "mat.cstv", 0.0, "1"),
    ("pwlv", "i", "mat.pwlv", 0.0, "1"),
    ("linv", "i", "mat.linv", 0.0, "1"),
    ("gbsv", "i", "mat.gbsv", 0.0, "1"),
    ("expv", "i", "mat.expv", 0.0, "1"),
    ("eps0", "d", "mat.eps0", 1e-14, "E"),
    ("tau0", "d", "mat.tau0", 2e6, "S"),
    ("eta0", "d", "mat.eta0", 1.0e20, "eta"),
    ("npwl", "d", "mat.npwl", 1.0, "1"),
    ("Qpwl", "d", "mat.Qpwl", 0.0, "1"),
    ("pref_pwl", "d", "mat.pref_pwl", 1.0, "1"),
    ("gs", "i", "mat.gs", 0.0, "1"),
    ("gs_ref", "d", "mat.gs_ref", 2.0e-3, "L"),
    ("kin", "i", "mat.kin", 0.0, "1"),
    ("reac_soft", "i", "mat.reac_soft", 0.0, "1"),
    ("reac_phase", "i", "mat.reac_phase", 0.0, "1"),
    ("Pr", "d", "mat.Pr", 0.0, "S"),
    ("dPr", "d", "mat.dPr", 0.0, "S"),
    ("tau_kin", "d", "mat.tau_kin", 0.0, "t"),
    ("k_chem", "d", "mat.k_chem", 0.0, "L2/t"),
    ("density_model", "i", "mat.density_model", 3, "1"),
    ("phase_diagram", "i", "mat.phase_diagram", -1, "1"),
    ("phase_mix", "i", "mat.phase_mix", 0.0, "1"),
    ("phase_two", "i", "mat.phase_two", "ID", "1"),
    ("aniso_angle", "d", "mat.aniso_angle", 90.0, "deg"),
    ("aniso_factor", "d", "mat.aniso_factor", 1.0, "1"),
    ("ani_fac_max", "d", "mat.ani_fac_max", 1000.0, "1"),
    ("ani_fstrain", "i", "mat.ani_fstrain", 0.0, "1"),
    ("axx", "d", "mat.axx", 1.0, "1"),
    ("azz", "d", "mat.azz", 1.0, "1"),
    ("ayy", "d", "mat.ayy", 1.0, "1"),
    ("transmutation", "i", "mat.transmutation", 0, "1"),
    ("transmutation_phase", "i", "mat.transmutation_phase", 1, "1"),
    ("transmutation_temperature", "d", "mat.transmutation_temperature", 1300.0, "T"),
]
TEXT = [("writer_subfolder", "./"), ("import_files_dir", "../../IMPORT"), ("import_file", "blah.bin"), ("initial_markers_file", "markers.bin")]
import math


def units(sc):
    """the characteristic scales"""
    eta, L, V, T = (float(sc.get(k, 1.0)) for k in ("eta", "L", "V", "T"))
    t = L / V
    E, S, a = 1 / t, eta / t, V / t
    m = S * L * t ** 2
    rho, J = m / L ** 3, m * L ** 2 / t ** 2
    W = J / t
    Cp, k = J / m / T, W / L / T
    return {"1": 1.0, "eta": eta, "L": L, "V": V, "T": T, "t": t, "E": E, "S": S, "a": a, "rho": rho, "Cp": Cp, "k": k, "L2/t": L * L / t, "W/L3": W / L ** 3, "1/T": 1 / T, "1/S": 1 / S, "deg": 180 / math.pi, "J": J, "m": m, "W": W}


def expected(model, phases):
    """what a run must start from, for a setup file with these parameters (dictionaries of numbers)"""
    u = units(model)
    e = {}
    def put(key, kind, field, default, unit, src, i=None):
        v = src.get(key, default)
        if kind == "i":
            v = int(v)
        e[field] = (v + 273.15) / u["T"] if unit == "degC" else v / u[unit]
    for r in MODEL:
        put(*r, model)
    g = lambda k: e["p." + k]
    if g("istep") == 0:
        e["p.irestart"] = 0
    if g("shear_style") in (0, 1):
        e["p.periodic_x"] = g("shear_style")
    if g("anisotropy") == 1:
        e["p.finite_strain"] = 1
    if g("Newton") == 0:
        e["n.Picard2Newton"] = 0
    if g("Newton") == 1:
        e["p.line_search"] = 1
    if g("lin_solver") == 0 or g("Newton") == 1 or g("anisotropy") == 1:
        e["p.lin_solver"] = 2
    e["p.dx"], e["p.dz"] = (g("xmax") - g("xmin")) / (g("Nx") - 1), (g("zmax") - g("zmin")) / (g("Nz") - 1)
    e["p.dt0"] = e["p.dt_start"] = g("dt")
    for k in ("xmin", "xmax", "zmin", "zmax"):
        e["p.%s0" % k] = g(k)
    e["p.Nb_phases"] = len(phases)
    M = {}
    for i, p in enumerate(phases):
        for key, kind, field, default, unit in PHASE:
            if default == "ID":
                default = i
            elif isinstance(default, str):
                q = default[1:]
                default = p.get(q, {"C": 1e7, "phi": 30.0, "psi": 0.0}[q])
            v = p.get(key, default)
            M.setdefault(field, []).append(int(v) if kind == "i" else v / u[unit])
        M.setdefault("mat.k_eff", []).append(M["mat.k"][i])
        M.setdefault("mat.T0", []).append(273.15 / u["T"])
        M.setdefault("mat.P0", []).append(1e5 / u["S"])
    return e, M, u
