// X-macro lists of the in-memory state of the model.
#define MESH_C(X) X(div_u)X(div_u_el)X(div_u_pl)X(div_u_r)X(p_in)X(p_corr)X(sxxd)X(szzd)X(sxz_n)X(exxd)X(ezzd)X(wxz_n)X(VE_n)X(sxxd0)X(szzd0)X(mu_n)X(eta_phys_n)X(Cp)X(Qr)X(p_start)X(divth_n)X(divth0_n) \
 X(eta_n)X(rho_n)X(X_n)X(X0_n)X(p0_n)X(OverS_n)X(strain_n)X(p)X(rp)X(rhs_p)X(rhs_t)X(alp)X(bet_n)X(p_lith)X(p_lith0)X(dp)X(Qrho)X(sxz0_n)X(exz_n)X(rho0_n)X(T)X(T0_n)X(d_n)X(d0_n)X(phi_n)X(phi0_n) \
 X(eII_el)X(eII_pl)X(eII_pwl)X(eII_exp)X(eII_lin)X(eII_gbs)X(eII_cst)X(D11_n)X(D12_n)X(D13_n)X(D14_n)X(D21_n)X(D22_n)X(D23_n)X(D24_n)X(drhodp_n)X(FS_AR_n)X(aniso_factor_n)X(d1_n)X(d2_n)X(angle_n) \
 X(dil_n)X(fric_n)X(C_n)X(Wdiss)X(Wel)X(Wtot)X(FreeSurfW_n)X(noise_n)
#define MESH_V(X) X(div_u_s)X(sxxd_s)X(szzd_s)X(sxz)X(exz)X(wxz)X(VE_s)X(sxz0)X(mu_s)X(eta_phys_s)X(eta_s)X(rho_s)X(X_s)X(X0_s)X(p0_s)X(strain_s)X(bet_s)X(sxxd0_s)X(szzd0_s)X(exxd_s)X(ezzd_s) \
 X(D31_s)X(D32_s)X(D33_s)X(D34_s)X(phi0_s)X(d0_s)X(T_s)X(P_s)X(FS_AR_s)X(aniso_factor_s)X(d1_s)X(d2_s)X(angle_s)X(dil_s)X(fric_s)X(C_s)X(FreeSurfW_s)X(noise_s)
#define MESH_U(X) X(roger_x)X(u_in)X(u_adv)X(kx)X(u_start)X(u)X(ru)X(rhs_u)X(gx)X(VzVx)X(kc_x)
#define MESH_W(X) X(roger_z)X(v_in)X(v_adv)X(kz)X(v_start)X(v)X(rv)X(rhs_v)X(gz)X(VxVz)X(kc_z)
#define PART_D(X) X(x)X(z)X(Vx)X(Vz)X(P)X(sxxd)X(szzd)X(sxz)X(progress)X(T)X(d)X(phi)X(X)X(strain)X(strain_el)X(strain_pl)X(strain_pwl)X(strain_exp)X(strain_lin)X(strain_gbs) \
 X(Fxx)X(Fxz)X(Fzx)X(Fzz)X(nx)X(nz)X(T0)X(P0)X(x0)X(z0)X(Tmax)X(Pmax)X(divth)X(noise)X(rho)X(aniso_angle)
#define PART_I(X) X(phase)X(generation)X(dual)X(intag)
#define MODEL_D(X) X(xmin)X(zmin)X(xmax)X(zmax)X(time)X(dx)X(dz)X(dt)X(dt0)X(dt_start)X(dt_max)X(dt_min)X(L0)X(xmin0)X(zmin0)X(xmax0)X(zmax0)X(gx)X(gz)X(bkg_strain_rate)X(bkg_div_rate)X(bkg_pressure)X(bkg_temperature)X(Courant)X(min_eta)X(max_eta)X(penalty)X(surf_diff)X(surf_sedirate)X(surf_baselev)X(surf_Winc)X(surf_Vinc)X(free_surface_stab)X(compressible) \
 X(preload_sxxd)X(preload_szzd)X(preload_sxz)X(therm_perturb_x0)X(therm_perturb_z0)X(therm_perturb_dT)X(therm_perturb_rad_x)X(therm_perturb_rad_z)X(cooling_duration)X(user0)X(user1)X(user2)X(user3)X(user4)X(user5)X(user6)X(user7)X(user8)X(user9) \
 X(dt_reduction_factor)X(eta_tol)X(lin_abs_div)X(lin_rel_div)X(lin_abs_mom)X(lin_rel_mom)X(auto_penalty)X(rel_tol_KSP)X(line_search_min)X(safe_dt_div)X(Pn)X(Tmin)X(Tmax)X(Emin)X(Emax)X(dmin)X(dmax)X(act_vol_dis_ast)X(act_vol_dif_ast)X(melt_weak)X(diffusion_length)
#define MODEL_I(X) X(Nx)X(Nz)X(Nt)X(step)X(nit)X(Newton)X(periodic_x)X(elastic)X(thermal)X(pure_shear_ALE)X(free_surface)X(RK)X(line_search)X(lin_solver)X(finite_strain)X(shear_style)X(Nb_phases)X(advection)X(mechanical)X(anisotropy)X(interp_stencil)X(conserv_interp)X(subgrid_diffusion)X(shear_heating)X(adiab_heating)X(stress_rotation)X(polar)X(irestart)X(istep)X(writer)X(writer_step)X(constant_dt) \
 X(balance_boundaries)X(zero_mean_topo)X(noisy)X(writer_markers)X(writer_debug)X(topo_update)X(melting)X(initial_cooling)X(surface_processes)X(therm_perturb)X(surf_ised1)X(surf_ised2)X(reseed_markers)X(smooth_softening)X(fix_temperature)X(initial_noise)X(reseed_mode)X(diag_scaling)X(preconditioner)X(max_its_KSP)X(max_its_PH)X(safe_mode)X(max_num_stag)X(nT)X(nE)X(nd)X(deformation_maps)X(force_act_vol_ast)X(force_melt_weak)X(track_T_P_x_z)X(delete_breakpoints)X(gnuplot_log_res)X(direct_neighbour)X(diffuse_X)X(diffuse_avg)X(chemical_diffusion)X(chemical_production)X(density_variations)X(kinetics)X(out_of_plane)X(layering)X(preload)X(out_of_plane)X(marker_noise)X(residual_form)X(save_initial_markers)X(load_initial_markers)X(marker_aniso_angle)
#define SCALE_D(X) X(eta)X(L)X(V)X(T)X(t)X(a)X(E)X(S)X(m)X(rho)X(F)X(J)X(W)X(Cp)X(rhoE)X(k)
#define MAT_D(X) X(eps0)X(tau0)X(eta0)X(rho)X(G)X(Cp)X(k)X(Qr)X(C)X(phi)X(psi)X(Slim)X(alp)X(bet)X(T0)X(P0)X(drho)X(k_eff)X(tpwl)X(Qpwl)X(Vpwl)X(npwl)X(mpwl)X(Apwl)X(apwl)X(fpwl)X(rpwl)X(Fpwl)X(pref_pwl)X(texp)X(Qexp)X(Vexp)X(Sexp)X(Eexp)X(Gexp)X(aexp)X(fexp)X(rexp)X(qexp)X(nexp) \
 X(tlin)X(Qlin)X(Vlin)X(nlin)X(mlin)X(Alin)X(alin)X(flin)X(rlin)X(Flin)X(tgbs)X(Qgbs)X(Vgbs)X(ngbs)X(mgbs)X(Agbs)X(agbs)X(fgbs)X(rgbs)X(Fgbs)X(ppzm)X(Kpzm)X(Qpzm)X(Vpzm)X(Gpzm)X(cpzm)X(Lpzm)X(gs_ref)X(Skin)X(kkin)X(Qkin)X(C_end)X(phi_end)X(psi_end)X(pls_start)X(pls_end)X(eta_vp)X(n_vp)X(sig_tens)X(sig1)X(dsig1)X(Pr)X(tau_kin)X(dPr)X(k_chem)X(aniso_angle)X(ani_fac_max)X(aniso_factor)X(axx)X(azz)X(ayy)X(transmutation_temperature)
#define MAT_I(X) X(kin)X(gs)X(cstv)X(pwlv)X(linv)X(expv)X(gbsv)X(phase_diagram)X(density_model)X(plast)X(phi_soft)X(psi_soft)X(coh_soft)X(yield)X(reac_soft)X(reac_phase)X(phase_mix)X(phase_two)X(melt)X(ani_fstrain)X(transmutation)X(transmutation_phase)
#define NMODEL_D(X) X(nonlin_abs_mom)X(nonlin_rel_mom)X(nonlin_abs_div)X(nonlin_rel_div)X(resx)X(resz)X(resp)X(resx0)X(resz0)X(resp0)X(resx_f)X(resz_f)X(resp_f)X(Picard2Newton_tol)
#define NMODEL_I(X) X(nit)X(nit_max)X(stagnated)X(Picard2Newton)X(let_res_grow)X(max_its_Pic)
