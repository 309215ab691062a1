# regenerates properties.jsonl (single source of the property texts)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,**({'state':state} if state else {}))))
PK='src/onepower/pk.py'; HMI='src/onepower/hmi.py'; HOD='src/onepower/hod.py'; IA='src/onepower/ia.py'; BNL='src/onepower/bnl.py'; ADD='src/onepower/add.py'; POI='src/onepower/utils/poisson.py'; CI='cosmosis_modules/onepower_interface.py'
p('C01','Matter power spectrum obeys the halo-model equations in every mode',
 'For every halo-model input, the matter-matter spectrum returned is the documented halo-model combination: one-halo mass integral of the squared matter profile times the large-scale damping, two-halo term equal to the linear power times the squared bias-weighted matter integral (including the low-mass compensation term) times the small-scale damping, plus the non-linear halo-bias integral when that correction is on. In the HMCode mode the two-halo term is the damped (dewiggled) linear power and the total is the alpha-smoothed sum; in all other modes the total is exactly one-halo plus two-halo. The one-halo matter profile follows the selected baryon option (none, HMCode feedback, stellar-fraction fit).',
 ['inputs','configurations'],'all positive masses, mass functions, biases, profiles, densities, k, z, linear powers; all non-linear modes x baryon options',
 'tests compare a few spectra against shapes/positivity or stored numbers for default inputs, so a wrong index, missing factor or wrong branch in a non-default mode goes unseen',
 [PK],[('power_spectrum_mm/_power_spectrum_mm',PK),('compute_1h_term, Im_term, A_term, transition_smoothing',PK)],['Spectra.power_spectrum_mm.pk_1h/pk_2h/pk_tot','Spectra.power_spectrum_lin'])
p('C02','Galaxy clustering and galaxy-matter spectra obey the halo-model equations',
 'For every halo occupation and every tomographic bin, the galaxy-galaxy and galaxy-matter spectra equal the documented central/satellite halo-model sums: central-satellite pairs counted twice and satellite pairs weighted by the Poisson factor in the one-halo term, all central/satellite combinations in the two-halo term, with the profiles normalised by the number densities of their own bin and weighted by the central and satellite fractions. The damping factors (or the non-linear halo-bias integral) are applied as in the matter case and the total is one-halo plus two-halo. The reported linear galaxy bias is the one implied by the same two-halo integrals.',
 ['inputs','configurations'],'all occupations, bins, redshifts, masses, k; all non-linear modes, baryon options and the point-mass option',
 'tests only check shapes and a handful of numbers with one bin; cross-bin leakage, wrong pair multiplicity or wrong profile in one mode are not exercised',
 [PK,POI],[('power_spectrum_gg, power_spectrum_gm',PK),('central_galaxy_profile, satellite_galaxy_profile, compute_Ig_term',PK),('poisson_func',POI)],['Spectra.power_spectrum_gg','Spectra.power_spectrum_gm'])
p('C03','Intrinsic-alignment spectra obey the halo-model equations with the right sign',
 'For every halo occupation and alignment model, the matter-intrinsic, intrinsic-intrinsic and galaxy-intrinsic spectra equal the documented sums of one-halo satellite-alignment terms and two-halo alignment terms (central plus satellite with the low-mass compensation, or the effective linear-alignment amplitude in the Fortuna mode), each counted once and damped by the alignment-specific damping. The matter-intrinsic correlation carries the minus sign in every mode, amplitudes scale with mass average over pivot to the given slope and inversely with the growth factor, and the total is one-halo plus two-halo. The effective power of the Fortuna mode is (1-t) times non-linear plus t times linear power.',
 ['inputs','configurations'],'all occupations, alignment amplitudes, slopes, pivots, bins, redshifts, masses, k; all non-linear modes, baryon options, point-mass',
 'tests check shapes and default numbers only; sign, pivot or weighting errors in non-default modes are invisible',
 [PK],[('power_spectrum_mi, power_spectrum_ii, power_spectrum_gi, peff',PK),('compute_central_galaxy_alignment_profile, compute_satellite_galaxy_alignment_profile',PK)],['Spectra.power_spectrum_mi','Spectra.power_spectrum_ii','Spectra.power_spectrum_gi'])
p('C04','Response mode rescales every spectrum by the same matter ratio',
 'With the response option on, the matter-matter spectrum is exactly the supplied non-linear matter power, and every other spectrum (galaxy, galaxy-matter, alignment; one-halo, two-halo and total) is exactly the value computed without response multiplied by the ratio of the supplied non-linear power to the halo-model matter total at the same redshift and wavenumber. With the option off, the supplied non-linear power does not influence any spectrum outside the Fortuna mode.',
 ['inputs','configurations'],'all inputs, modes and spectra, response on/off',
 'tests enable response for one or two spectra with default inputs and never compare against the unscaled result',
 [PK],[('response branches of power_spectrum_*',PK),('_pk_nl',PK)],['Spectra.power_spectrum_*'])
p('C05','Non-linear halo-bias integral is exact, symmetric, and zero for zero bias',
 'The correction added to the two-halo term equals the double mass integral of the non-linear bias over both profiles, biases and mass functions, including the three compensation terms that place the missing mass in the lightest halo. It is unchanged when the two fields are exchanged together with the two mass arguments of the bias, is linear in the non-linear bias, and is zero for zero non-linear bias, in which case every spectrum reduces to the undamped linear-bias result.',
 ['inputs'],'all profile, bias, mass-function and non-linear-bias arrays, all grids',
 'tests only check the output shape of the integral',
 [PK],[('I_NL, prepare_I12/I21/I22_integrand, _trapezoidal_weights',PK)],['Spectra.power_spectrum_* with nonlinear_mode bnl'])
p('C06','Matter profiles conserve mass and feedback fractions are physical',
 'On the largest scales the dark-matter profile of every halo tends to its mass over the mean density, and with feedback the profile tends to that times the retained mass fraction: cold dark matter plus gas plus stars. The gas fraction is the baryon budget left after star formation, times a mass-dependent retention between zero and one that tends to one for massive and zero for light haloes; the stellar part is never smoothed by the halo profile. The stellar and pivot-mass scalings with redshift and AGN temperature follow the HMCode2020 table.',
 ['inputs'],'all masses, redshifts, densities, stellar fractions, baryon fractions, AGN temperatures and pivot masses',
 'tests evaluate the fractions at one or two points and only assert shapes or signs',
 [PK],[('fg, fg_fit, fs',PK),('compute_matter_profile*',PK)],['Spectra.matter_profile*','Spectra.power_spectrum_mm/gm one-halo terms'])
p('C07','Damping factors stay in range, have the right limits and can be switched off',
 'Every one-halo damping lies between zero and one, increases with wavenumber and suppresses only large scales; every two-halo damping lies between zero and one, decreases with wavenumber and leaves large scales unchanged. Setting a truncation scale to none disables exactly that damping and no other. The HMCode dampings depend on redshift only through sigma8 at that redshift with the published coefficients.',
 ['inputs','configurations'],'all k, truncation scales (including none), sigma8 values per redshift',
 'tests check a few shapes and one numeric sample',
 [PK],[('one_halo_truncation*, two_halo_truncation*',PK)],['Spectra.one_halo_truncation* / two_halo_truncation*'])
p('C08','Halo occupation functions match their models and stay physical',
 'For every supported occupation model the mean number of centrals and satellites at each halo mass, redshift and bin equals the published formula for that bin\'s own parameters, including the step-function limit for zero scatter. Centrals lie between zero and one for the threshold models, satellites are never negative, the total is centrals plus satellites, and decorated assembly-bias parameters between -1 and 1 keep both in range and change centrals by the amplitude times min(N, 1-N) and satellites by the amplitude times N.',
 ['inputs','configurations'],'all masses, model parameters (scalar or one per bin), assembly-bias amplitudes, all five models',
 'tests evaluate default parameters on one grid; multi-bin parameters, thresholds exactly at a grid mass and assembly bias are barely sampled',
 [HOD],[('Cacciato, Simple, Zehavi, Zheng, Zhai',HOD)],['HOD.hod_cen/hod_sat/hod'])
p('C09','Galaxy number densities, fractions, biases and masses are consistent integrals',
 'For every occupation, number densities, mean halo masses and linear biases are the mass-function-weighted integrals of that occupation in the same bin and redshift, central plus satellite densities equal the total, central and satellite fractions add to one and the central and satellite bias contributions add to the total bias. Quantities are evaluated with the mass function interpolated linearly to the bin\'s own redshift grid and interpolated linearly back to the model redshifts; fractions and mean masses vanish outside the bin\'s redshift range.',
 ['inputs','configurations'],'all occupations, mass functions, biases, redshift ranges and numbers of bins',
 'tests check shapes and positivity for one bin; leakage between bins or redshifts is not visible',
 [HOD],[('_mass_integral, _mean_mass_integral, _bias_integral, _interpolate, dndlnm_int, halo_bias_int',HOD)],['HOD.number_density*, f_c, f_s, avg_halo_mass*, galaxy_linear_bias*'])
p('C10','Conditional observable functions give occupations, stellar fractions and SMF',
 'The conditional function model gives a log-normal central part around the double-power-law mean relation and a modified-Schechter satellite part with the documented characteristic value and normalisation, over exactly the requested observable range of each bin and redshift (fixed limits or per-redshift limits read from a file). Occupations are its integral over the observable, stellar fractions its first moment over halo mass (with one extra factor of little h when observables are in h^-2 units), and the reported observable function is its mass-function-weighted integral times observable and ln 10, with central plus satellite equal to total.',
 ['inputs','configurations'],'all model parameters, observable ranges, masses, mass functions, bins, units',
 'tests check array shapes and one default parameter set',
 [HOD,PK],[('COF_cen, COF_sat, obs_func*, _compute_stellar_fraction*',HOD),('obs_func*, fstar',PK)],['HOD.obs_func*','HOD.stellar_fraction*','Spectra.obs_func*'])
p('C11','Every cosmology and halo parameter reaches the halo model at every redshift',
 'At each requested redshift the halo model used for centrals/matter and the one used for satellites are configured with exactly the user\'s cosmology, mass range, mass function, bias, transfer, growth, overdensity and collapse threshold for that redshift, and with the profile, concentration, normalisation and bloating of their own galaxy type. The HMCode options override these with the HMCode mass definition, threshold, overdensity, concentration and bloating of that same redshift for both types. All returned ingredients are the halo model\'s own outputs in redshift order, with profiles normalised to one at the largest scale.',
 ['inputs','configurations'],'all parameter values, redshift vectors, mass definitions, HMCode options',
 'tests only assert attributes exist with right shapes at default values, so a parameter dropped, swapped between centrals and satellites or taken from the wrong redshift is not seen',
 [HMI],[('_hmf_generator and the _*_mod overrides',HMI),('mass, dndlnm, halo_bias, u_dm, u_sat, ...',HMI)],['HaloModelIngredients public quantities'])
p('C12','HMCode growth, collapse threshold and overdensity follow the published fits',
 'The linear growth solves the matter/dark-energy growth equation for the given cosmology with the published initial conditions, the accumulated growth is its integral over d ln a, and the collapse threshold and virial overdensity at each redshift equal the published fitting functions of growth, accumulated growth, matter fraction and neutrino fraction at that redshift. The concentration normalisation follows the HMCode2020 dependence on AGN temperature and redshift. The cold-matter transfer ratio follows Eisenstein & Hu (1999), the cold-matter variance is the top-hat filtered integral of the cold power, and a halo collapses when its growth reaches the threshold over the variance at a hundredth of its mass (Bullock 2001).',
 ['inputs'],'all cosmologies, redshifts, AGN temperatures',
 'tests compare a few numbers at the default cosmology where many terms are degenerate (w=-1, flat)',
 [HMI],[('get_mead_growth_fnc, get_mead_accumulated_growth, f_Mead, dc_Mead, Dv_Mead, K, Tk_cold_ratio, sigmaR_cc, get_halo_collapse_redshifts',HMI)],['HaloModelIngredients.dc_Mead, Dv_Mead, K'])
p('C13','Updating an object gives the same answers as building a new one',
 'After any sequence of parameter updates and reads, every quantity read from a spectrum, ingredient, alignment, non-linear-bias or upsampling object equals the one read from an object freshly constructed with the final parameter values. Reading quantities, in any order and any number of times, never changes what is returned later. A clone gives the same answers and is independent of its original.',
 ['histories','configurations'],'all parameters, all quantities, update sequences and read orders up to the stated length',
 'tests update one or two parameters once; they cannot enumerate parameter x quantity x history combinations',
 [PK,HMI,IA,BNL,ADD],[('parameter/cached_quantity declarations',PK),('omega_m caching',HMI),('frac_1/frac_2/power_1/power_2 caching',ADD),('beta_two',IA)],['every public quantity before and after update()'])
p('C14','Caller-supplied arrays and dictionaries are left untouched',
 'Neither computing any quantity nor updating an object modifies arrays or dictionaries supplied by the caller, or the inputs of another object built from the same inputs. Two objects built from the same inputs give the same results whichever is evaluated first and in whatever order their quantities are read.',
 ['inputs','histories'],'all inputs, all public quantities, both evaluation orders',
 'tests build a fresh object per assertion and never re-inspect inputs',
 [PK,HOD,IA,HMI],[('alignment_class',PK),('in-place response scaling',PK)],['caller-side dicts and arrays after evaluation'])
p('C15','Alignment amplitudes follow the chosen galaxy dependence',
 'For a constant or halo-mass dependence the central and satellite amplitudes are the given ones at every redshift; for a luminosity dependence they are the given amplitude times the luminosity distribution average of (L/L_pivot) to the slope, using each redshift bin\'s own galaxies and, for centrals with a second slope, the broken power law that switches at the pivot. Missing pivots or luminosity samples and unsupported combinations are rejected rather than silently ignored.',
 ['inputs','configurations'],'all amplitudes, slopes, pivots, luminosity samples, redshift grids and dependence options',
 'tests use a constant or tiny sample luminosity file and assert shapes',
 [IA],[('alignment_gi, gamma_1h_amp, mean_l_l0_to_beta, broken_powerlaw, compute_luminosity_pdf',IA)],['AlignmentAmplitudes.alignment_gi, gamma_1h_amp'])
p('C16','Satellite alignment profile: radial law, angular multipoles and resampling',
 'The satellite shear profile is the amplitude times the radial power law, frozen inside the core radius and capped at 0.3, times the NFW density (zero beyond the virial radius only when truncation is on), normalised by the NFW mass of that halo and redshift. The Fourier-space profile is the modulus of the even-multipole sum with the documented angular factors, where the tabulated factors for slopes 0 and -2 agree with the general formula, and resampling to the requested k (and mass) grid reproduces the computed values at the computed points for either transform method.',
 ['inputs','configurations'],'all radii, scale radii, virial radii, amplitudes, slopes, concentrations, multipole orders, grids',
 'tests compare one default evaluation with stored shapes',
 [IA],[('gamma_r_nfw_profile, calculate_f_ell, wkm_f_ell, compute_uell_gamma_r_hankel, upsampled_wkm, _downsample',IA)],['SatelliteAlignment.wkm, upsampled_wkm'])
p('C17','Emulated non-linear bias: symmetric, in the right slot, emulator kept in range',
 'The non-linear bias returned at [redshift, k, mass1, mass2] is the emulated value for exactly that redshift, wavenumber and mass pair, and is symmetric in the two masses. The emulator is always asked for a cosmology inside its supported box: parameters inside the box are passed unchanged, parameters outside are moved to the nearest edge, and the amplitude is the given one or the one reproducing the requested sigma8.',
 ['inputs','configurations'],'all mass, redshift and k grids, all cosmologies, with and without redshift dependence',
 'tests run the emulator at one cosmology and check shapes',
 [BNL],[('bnl, compute_bnl_darkquest, create_bnl_interpolation_function, test_cosmo, emulator',BNL)],['NonLinearBias.bnl, test_cosmo'])
p('C18','Upsampling and two-population combination are exact weighted interpolations',
 'Upsampled spectra are the input spectra interpolated linearly in redshift and in log k at the requested points, reproducing them at the original grid points, with the chosen treatment outside the redshift range. With two populations, galaxy-matter and matter-intrinsic spectra are weighted by the population fraction and its complement, auto-type spectra by their squares, matter-matter is unweighted, and the fraction is interpolated to the output redshifts; every requested spectrum and component is returned under its own name.',
 ['inputs','configurations'],'all spectra values, grids, fractions, extrapolation options, requested spectra and components',
 'tests compare shapes for one grid',
 [ADD],[('results, extrapolate_spectra, add_spectra, frac_1',ADD)],['UpsampledSpectra.power_spectrum_*'])
p('C19','Input matter power is selected, interpolated and dewiggled correctly',
 'When linear or non-linear matter power is supplied it is used as given, otherwise the halo model\'s own power is interpolated to the requested wavenumbers at each redshift. Dewiggling, applied when requested or in the HMCode mode and never otherwise, removes a fraction 1-exp(-(k sigma_v)^2) of the wiggle component with sigma_v of the same redshift, and is the identity for a wiggle-free spectrum.',
 ['inputs','configurations'],'all power spectra, k grids, redshifts, option combinations',
 'tests run one default spectrum and check shape',
 [PK],[('_pk_lin, _pk_nl, dewiggle_plin, get_Pk_wiggle, sigmaV',PK)],['Spectra.power_spectrum_lin','Spectra.power_spectrum_mm'])
p('C20','Invalid configurations are rejected, valid ones accepted',
 'Unsupported option values (non-linear mode, HMCode option, alignment dependence, transform method, multipole order, correlation type, units) and inconsistent combinations (HMCode mode without HMCode ingredients or with the fit option, input power of the wrong shape, missing pivots, unevenly spaced k for dewiggling, missing amplitude) raise an error instead of producing numbers, both at construction and on update. Every documented option value is accepted.',
 ['inputs','configurations','histories'],'all option values and combinations, at construction and on update',
 'tests sample one invalid value per option at construction',
 [PK,HMI,IA,BNL,'cosmosis_modules/pk_to_real/pk_to_real.py','cosmosis_modules/convert_theta/convert_theta.py'],[('validate, parameter setters, shape checks',PK)],['exceptions at construction/update/evaluation'])
p('C21','CosmoSIS options and values reach the model under the right names',
 'Every pipeline option and sampled value is passed to the model parameter it documents: cosmology, mass range, profile normalisations, truncation scales (with None disabling), occupation parameters of the right bin, Poisson parameters, baryon pivot mass, and alignment parameters of centrals to centrals and satellites to satellites. Absent options take the documented default and required but missing parameters raise an error.',
 ['inputs','configurations'],'all option values, values, numbers of bins, occupation and Poisson models, alignment dependences',
 'no test covers the pipeline modules',
 [CI],[('setup_*, execute',CI)],['keyword arguments received by the model'])
p('C22','CosmoSIS outputs land in their own sections and calls are independent',
 'Each requested spectrum, bin and component is written to its own section and name on the output redshift and wavenumber grid, unrequested spectra are not written, and the saved halo and occupation quantities are the model\'s own for that bin. A second pipeline call with new values writes exactly what a fresh pipeline would write for those values.',
 ['inputs','histories','configurations'],'all requested-spectra combinations, bins, two successive calls with different values',
 'no test covers the pipeline modules',
 [CI],[('save_*, execute',CI)],['data block contents after execute'])
p('C23','Real-space projection and unit or cosmology corrections are exact',
 'The spectrum handed to the Hankel transform interpolates the input in log-log (sign-preserving, or log-linear for mixed signs) and reproduces it at its own points; projected observables are the kernel-weighted redshift integral of each bin\'s transform with its own section, kernel and density factor. Angle conversion keeps the physical angle and records the new unit, and the cosmology correction multiplies each bin\'s signal and the separations by the documented distance and Hubble ratios for that bin exactly once.',
 ['inputs','configurations'],'all spectra, kernels, bins, units, cosmologies, correlation types',
 'no test covers these modules',
 ['cosmosis_modules/pk_to_real/pk_to_real.py','cosmosis_modules/pk_to_real/pk_to_real_ogata.py','cosmosis_modules/pk_to_real/correct_cosmo_real.py','cosmosis_modules/convert_theta/convert_theta.py'],[('LogInterp, CosmosisTransformer.__call__, load_kernel',"cosmosis_modules/pk_to_real/pk_to_real.py"),('execute','cosmosis_modules/pk_to_real/correct_cosmo_real.py')],['data block contents after execute'])
p('C24','Poisson weighting models are exact for every halo mass',
 'The constant model gives the same factor for every halo mass and the power-law model the amplitude times (mass over pivot) to the slope, where the pivot is given as a base-10 logarithm; unit amplitude and zero slope give exactly Poisson statistics. Missing pivot or slope is an error.',
 ['inputs','configurations'],'all masses, amplitudes, pivots, slopes',
 'tests sample one mass array',
 [POI],[('constant, power_law',POI)],['Poisson.poisson_func'])
FF='cosmosis_modules/pk_to_real/pyfftlog.py'
p('C25','The bundled fast Hankel transform is exact as a discrete transform and inverts',
 'For every real input array the bundled logarithmic Hankel and Fourier sine/cosine transforms return the documented discrete transform: the Fourier coefficients multiplied by (kr)^(-i 2 pi m/(n dlnr)) U_mu(q + i 2 pi m/(n dlnr)), with the documented powers of r, k, kr and rk around it, leaving input and working array unchanged. Forward then backward (or the reverse) returns the input, backward is the forward transform with q to -q, and the low-ringing kr is the nearest one with a real multiplier at the highest frequency.',
 ['inputs','configurations'],'all input arrays, orders, biases, spacings, products kr, ratios rk, both directions, odd and even numbers of points',
 'no test covers the module',
 [FF],[('fhti, fhtq, fht, fftl, krgood',FF)],['pyfftlog.fht, fhtq, fftl output'])
p('N01','Fast Hankel transforms approximate the continuous Hankel integral',
 'The logarithmic Fourier transform returns the continuous Hankel transform of its input to within the documented ringing and aliasing error for every order, bias and number of points.',
 ['inputs'],'all orders, biases, grids and inputs','no test covers the module',
 [FF],[('fhti, fht, fhtq',FF)],['pyfftlog.fht output'])
p('N02','Halo-model ingredients and emulator outputs are numerically accurate',
 'Mass functions, biases, concentrations, profile transforms, CAMB transfer functions, the growth ODE solution and Dark Emulator predictions returned to the user are accurate approximations of the underlying physical models.',
 ['inputs'],'all cosmologies, masses, redshifts','tests compare to a few stored numbers',
 [HMI,BNL],[('hmf/halomod/CAMB/dark_emulator calls',HMI)],['HaloModelIngredients quantities'])
if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for q in P:
            assert len(q['title'])<=80,(q['id'],len(q['title']))
            f.write(json.dumps(q,ensure_ascii=False)+'\n')
    print(len(P))
