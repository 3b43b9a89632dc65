I, H, CF, FS = "inputs", "histories", "configurations", "fault_sequences"

prop("C01", "Concatenation keeps every profile once, in file-name order, aligned",
 """Concatenating any set of netCDF files along a dimension produces exactly every profile of every readable
 file that has at least one profile, once each, ordered by file base name whatever order the files were given in,
 with every variable aligned with its own profile and the list of used files returned.
 Variables without that dimension are repeated for each profile; a variable missing from a later file is missing
 (masked) there; when range axes differ, values come from the nearest gate of the first file's axis and gates outside
 a file's own axis are masked; the variable filter and ignore list, new attributes and first-file attributes are
 honoured. An unreadable later file contributes nothing, and no usable file is an error.""".replace("; when range axes differ", "; when range axes differ"),
 [I, FS], "every set and call order of input files: empty, single-profile and long files, differing range axes, missing variables, masked values, variable filters, an unreadable file at any position",
 "The tests concatenate three or four fixed files of one shape; order, empty files, differing grids, filters and unreadable files combine in far more ways than they sample.",
 ["cloudnetpy/concat_lib.py"],
 [("sort by base name and validity filter", "cloudnetpy/concat_lib.py:_Concat.__init__"), ("append with nearest-neighbour regridding", "cloudnetpy/concat_lib.py:_Concat._append_data")],
 [("output file", "netCDF file open for writing; grows along the concatenation dimension", "cloudnetpy/concat_lib.py:_Concat.concatenated_file")],
 ["the output netCDF file", "return value of concatenate_files"])

prop("C02", "Incremental append only ever extends the daily file with newer profiles",
 """Appending a new file to an existing one keeps every existing profile unchanged and adds exactly the new file's
 profiles whose time is later than the last existing time, contiguously, in order and with each shared
 time-dependent variable aligned; it reports 1 when something was added and 0 otherwise.
 Over any history of appends the file therefore stays a growing prefix-extended series without duplicates,
 repeating an append changes nothing, and a missing or unreadable new file leaves the existing file unchanged and reports 0.""",
 [H, FS], "every sequence of append operations with new files that overlap, repeat, precede or follow the existing data, contain extra or missing variables, or are unreadable",
 "Tests append one fixed pair of files; partial overlap, repeated and out-of-order arrivals are histories they never run.",
 ["cloudnetpy/concat_lib.py"],
 [("selection of later time stamps", "cloudnetpy/concat_lib.py:_find_valid_time_indices"), ("append of each field", "cloudnetpy/concat_lib.py:_update_fields")],
 [("daily file", "time series on disk", "the file named by old_file")],
 ["the netCDF file on disk after each call", "return value of update_nc"])

prop("C03", "Daily bundling selects exactly the files of the date; text and truncation exact",
 """Bundling several netCDF files for a date uses exactly those readable files that hold at least one time stamp of that
 UTC date in the file's own time units, in file-name order, and drops the per-integration bookkeeping variables;
 a single file is copied unchanged.
 Concatenating text files yields exactly the bytes of the inputs in the given order, and truncating a netCDF file keeps
 its first n profiles of every variable along that dimension together with everything else unchanged.""",
 [I, FS], "every list of files with time stamps around midnight in any epoch, unreadable files, either concatenation dimension, any byte content and any profile count",
 "Tests bundle one set of fixed files and never probe the day boundary, other epochs, or unreadable files.",
 ["cloudnetpy/concat_lib.py", "cloudnetpy/utils.py"],
 [("per-file date test", "cloudnetpy/concat_lib.py:bundle_netcdf_files"), ("epoch parsing", "cloudnetpy/utils.py:get_epoch"), ("truncation", "cloudnetpy/concat_lib.py:truncate_netcdf_file")],
 observe=["output file", "return value"])

prop("C04", "Daily screening keeps exactly the date's profiles, sorted, unique, aligned",
 """When raw instrument data are processed for a date, the output holds exactly the profiles whose time stamp falls on
 that date, in strictly increasing time order and without repeated time stamps, as decimal hours of that day, and every
 time-dependent variable of a kept profile is the one measured at that time stamp.
 If no profile falls on the date, processing fails with a time-stamp error and produces no product; without a requested
 date the data must come out as a single day.""",
 [I], "every sequence of raw time stamps: unsorted, duplicated, from neighbouring days, at midnight, in any number of input files",
 "The sample files of the tests are already sorted single-day data, so misalignment and boundary handling never show.",
 ["cloudnetpy/utils.py", "cloudnetpy/instruments/ceilometer.py", "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/weather_station.py"],
 [("time screening of all arrays", "cloudnetpy/instruments/cloudnet_instrument.py:CloudnetInstrument.screen_time_indices"), ("date screening", "cloudnetpy/utils.py:screen_by_time")],
 observe=["output netCDF file", "exception"])

prop("C05", "Time averaging is local to each bin and masks bins without data",
 """Rebinning a time series or a time-height field onto a regular time grid gives, in each bin, the mean of exactly the
 valid input values whose time falls in that bin; a bin with no valid input (or fewer than the required number of
 profiles) is masked and reported as empty, and masked or NaN input values never contribute.
 Consequently a change to an input value can only change the bin it belongs to.""",
 [I], "every input time series and target grid: gaps, masked values, irregular sampling, single-profile bins, several columns",
 "Tests check a few hand-made arrays; bin membership at edges, gaps and masks vary without bound.",
 ["cloudnetpy/utils.py", "cloudnetpy/cloudnetarray.py"],
 [("2-D rebinning", "cloudnetpy/utils.py:rebin_2d"), ("1-D rebinning", "cloudnetpy/utils.py:rebin_1d"), ("bin edges", "cloudnetpy/utils.py:binvec")],
 observe=["returned arrays and list of empty bins"])

prop("C06", "Interpolation never fills across gaps longer than the stated limit",
 """Interpolating measurements onto the common time (and height) grid reproduces the values at coinciding points,
 stays within the bracketing (or nearest) valid measurements elsewhere, and yields a masked value wherever the gap to
 the measurements exceeds the stated limit or no measurement exists on that side.
 Masked measurements are never turned into data beyond what the surrounding valid measurements support.""",
 [I], "every measured time series or field with gaps, masked points and profiles, and every target grid",
 "Tests use a handful of tiny arrays; gaps at the limit, at the edges and in combination are not enumerated.",
 ["cloudnetpy/utils.py", "cloudnetpy/categorize/lidar.py", "cloudnetpy/categorize/mwr.py", "cloudnetpy/categorize/disdrometer.py", "cloudnetpy/categorize/model.py"],
 [("masked 2-D interpolation", "cloudnetpy/utils.py:interpolate_2d_mask"), ("nearest interpolation", "cloudnetpy/utils.py:interpolate_2d_nearest"), ("1-D interpolation with gap limit", "cloudnetpy/utils.py:interpolate_1d"), ("lidar gap limits", "cloudnetpy/categorize/lidar.py:Lidar.interpolate_to_grid")],
 observe=["returned arrays"])

prop("C07", "Every product records its true provenance through the whole processing chain",
 """Each product file carries a fresh or the requested identifier (which is also the returned one), lists exactly the
 distinct identifiers of the files it was made from, and its history starts with its own creation record followed by the
 source files' histories without duplicates and newest first, with weather-model histories contributing only their last entry.
 Along any chain instrument, categorize, product, the history grows and earlier records are never lost, and the file
 states its own type, the site and the processed date of its sources.""",
 [H, CF], "every processing pipeline over any set of source files with any histories, including repeated sources, malformed history lines and sources without an identifier",
 "Tests check single steps with mock objects; what is asserted here is a property of multi-step histories.",
 ["cloudnetpy/output.py", "cloudnetpy/categorize/categorize.py", "cloudnetpy/products/product_tools.py"],
 [("history merge", "cloudnetpy/output.py:merge_history"), ("source identifiers", "cloudnetpy/output.py:get_source_uuids"), ("product header", "cloudnetpy/output.py:save_product_file")],
 observe=["global attributes of the product files", "return values"])

prop("C08", "Categorize keeps only times all inputs cover, on one grid, and closes its files",
 """The categorize product contains exactly those time steps of the regular grid at which radar, lidar and model data
 are all available, and every time- or height-dependent variable in it is defined on that one common time-height grid.
 If fewer than two such steps remain the processing fails with a time-stamp error, missing optional inputs never
 remove time steps, and every input file is closed whether processing succeeds or fails.""",
 [I, FS], "every placement of gaps in radar, lidar and model data, with or without microwave radiometer and disdrometer, and failing inputs",
 "Tests run categorize only on mocked parts or gap-free sample data.",
 ["cloudnetpy/categorize/categorize.py", "cloudnetpy/categorize/containers.py"],
 [("gap screening", "cloudnetpy/categorize/categorize.py:_screen_bad_time_indices"), ("common grid", "cloudnetpy/categorize/categorize.py:_interpolate_to_cloudnet_grid"), ("closing in finally", "cloudnetpy/categorize/categorize.py:_close_all")],
 observe=["categorize file", "open file descriptors", "exceptions"])

prop("C09", "Category bits of every pixel are physically consistent with the measurements",
 """In every categorize product each pixel of the grid has bits that are consistent with what was measured there.
 Aerosol is reported exactly where the lidar detected something that is neither falling nor droplets; insects exclude
 falling particles and droplets and need a radar echo and no clearly cold air; droplets are never colder than -38 degC
 and come from a strong lidar peak (extended upwards through echoes); falling particles without a radar echo are cold
 lidar echoes well above ground (ice) or frozen droplets; every radar echo that is not clutter is explained by a target
 except isolated cold speckle; clutter is never falling or droplets.
 Freezing holds from one altitude upwards, which follows the wet-bulb temperature where there is no melting layer;
 melting is reported only on falling particles within the temperature range of melting layers or at the boundary of
 drizzle and ice. The bits do not depend on measurements far away in time, and a scene gives the same bits again.""",
 [I], "every combination of radar, lidar, model and radiometer fields",
 "Tests classify small synthetic arrays function by function; the cross-feature exclusions over whole scenes are never asserted.",
 ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/falling.py", "cloudnetpy/categorize/freezing.py", "cloudnetpy/categorize/insects.py", "cloudnetpy/categorize/melting.py"],
 [("classification", "cloudnetpy/categorize/classify.py:classify_measurements")],
 observe=["category_bits variable of the categorize file"])

prop("C10", "Quality bits and attenuation corrections tell the truth about the radar signal",
 """In every categorize product the radar and lidar quality bits are set exactly where reflectivity and backscatter are
 present, a corrected flag is never set without the matching attenuated flag or without an amount by which the
 reflectivity was actually corrected, and the stored reflectivity equals the calibrated measurement plus the stored
 attenuation amounts.
 Attenuation amounts are non-negative, do not decrease with height, and are zero or absent without a source below;
 where attenuation is known but not correctable the reflectivity error is masked.""",
 [I, CF], "every scene with liquid layers, rain, melting layers, with and without radiometer, disdrometer, and radar frequencies",
 "Tests check the attenuation functions separately with a few arrays; the consistency of flags, amounts and reflectivity in the file is a joint property.",
 ["cloudnetpy/categorize/attenuation.py", "cloudnetpy/categorize/attenuations", "cloudnetpy/categorize/radar.py", "cloudnetpy/categorize/classify.py"],
 [("attenuation correction", "cloudnetpy/categorize/radar.py:Radar.correct_atten"), ("quality bits", "cloudnetpy/categorize/classify.py:fetch_quality")],
 observe=["quality_bits, Z, Z_error and attenuation variables of the categorize file"])

prop("C11", "Target classification assigns each pixel exactly the class its bits define",
 """The target classification is a total function of the category bits: every pixel gets exactly one of the eleven
 classes, determined by the documented meaning of its own bits alone (droplets, falling, freezing, melting, aerosol, insect),
 with clear sky exactly where no target bit is set.
 Melting ice takes the class of melting with or without droplets, insects only without other targets, and
 aerosol and insects coexisting has its own class.""",
 [I], "every combination of category bits in every pixel arrangement",
 "Tests check a few bit patterns; the table has 64 patterns and must hold independently of neighbouring pixels.",
 ["cloudnetpy/products/classification.py"],
 [("classification table", "cloudnetpy/products/classification.py:_get_target_classification")],
 observe=["target_classification variable of the classification product"])

prop("C12", "Detection, signal-source and attenuation status follow the quality bits exactly",
 """In the classification product every pixel's detection status, signal source status and radar attenuation status is the value that
 the documentation defines for its combination of quality bits and rain information, whatever the other pixels are.
 The radar attenuation status distinguishes, per source of attenuation, clear, corrected and uncorrected pixels.""",
 [I], "every combination of quality bits in every pixel arrangement",
 "Tests cover a few of the hundreds of bit combinations.",
 ["cloudnetpy/products/classification.py"],
 [("detection status", "cloudnetpy/products/classification.py:_get_detection_status"), ("signal source", "cloudnetpy/products/classification.py:_get_signal_source_status"), ("attenuation status", "cloudnetpy/products/classification.py:_get_radar_attenuation_status")],
 observe=["status variables of the classification product"])

prop("C13", "Cloud base and top heights bracket the cloud pixels of each profile",
 """For every profile of the classification product, the cloud base height is the height of the lowest and the cloud top
 height that of the highest cloud pixel left after small isolated features are removed, both also as heights above ground,
 and both are missing exactly when the profile has no such cloud; so base never exceeds top.
 The cloud top status reflects the detection status at the top and depends only on that profile's data.""",
 [I], "every arrangement of classes in the time-height plane, including cloud-free scenes, single profiles and full columns",
 "Tests check one tiny array.",
 ["cloudnetpy/products/classification.py", "cloudnetpy/products/product_tools.py"],
 [("cloud boundaries", "cloudnetpy/products/classification.py:_get_cloud_base_and_top_heights")],
 observe=["cloud_base_height, cloud_top_height and related variables"])

prop("C14", "Ice retrievals are reported exactly where ice is seen, with a truthful status",
 """Ice water content and ice effective radius have a value exactly in ice pixels (falling, freezing, not melting, no insects)
 whose radar signal is not affected by uncorrected attenuation, and the status of every pixel distinguishes no ice,
 reliable ice, ice detected only by lidar, ice with uncorrected attenuation, ice with corrected attenuation, ice hidden above rain and would-be ice
 per the documented definitions.
 The random error is available exactly where the retrieval used a radar value, and the retrieved value depends only on that pixel's reflectivity and temperature.""",
 [I], "every combination of category bits, quality bits, rain flags and reflectivity masks per pixel",
 "Tests run a tiny mocked array per helper; the combination table and end-to-end masks are not covered.",
 ["cloudnetpy/products/product_tools.py", "cloudnetpy/products/iwc.py", "cloudnetpy/products/ier.py"],
 [("ice classification", "cloudnetpy/products/product_tools.py:IceClassification"), ("status", "cloudnetpy/products/product_tools.py:IceSource.append_status")],
 observe=["iwc, iwc_inc_rain, iwc_error, iwc_retrieval_status, ier variables"])

prop("C15", "Liquid water content in a profile always adds up to the measured water path",
 """In every profile with liquid cloud, a valid liquid water path and no rain, the retrieved liquid water content integrated over
 height equals the measured path; content appears only in liquid pixels or in the cloud adjusted upwards above a lidar-attenuated top.
 Profiles with rain or without a valid path carry no content, and the status of each pixel states no liquid, retrieved, adjusted,
 newly added or unretrievable accordingly. Its relative error combines the relative error of the path with half the relative change of content to the neighbouring pixels.""",
 [I], "every arrangement of liquid layers, lidar attenuation, rain flags and water paths",
 "Tests check one small mocked case.",
 ["cloudnetpy/products/lwc.py"],
 [("adiabatic profile and scaling", "cloudnetpy/products/lwc.py:Lwc"), ("cloud adjustment", "cloudnetpy/products/lwc.py:CloudAdjustor")],
 observe=["lwc, lwc_retrieval_status variables"])

prop("C16", "Droplet effective radius is retrieved only in suitable droplet pixels",
 """Droplet effective radius has a value in exactly the pixels classified as droplets that have a radar echo, given by the
 pixel's own reflectivity; the radius and number concentration scaled to the liquid water path exist exactly where there is
 also a positive water path, are determined by the echoes of the pixel's own liquid layer (Frisch 2002), and the status
 of each pixel is the documented one (0 none, 1 reliable, 2 mixed-phase, 3 precipitation in profile, 4 surrounding ice).
 Without any liquid water path in the file there is no product.""",
 [I], "every combination of category bits, rain and water-path availability",
 "Tests check mocked parts only.",
 ["cloudnetpy/products/der.py"],
 [("droplet classification and status", "cloudnetpy/products/der.py")],
 observe=["der, der_scaled, der_retrieval_status variables"])

prop("C17", "Drizzle parameters appear only in drizzle pixels, with a truthful status",
 """Drizzle parameters are retrieved only in pixels classified as drizzle below a droplet cloud, are masked in rain profiles,
 and every pixel's status is the documented one. Where retrieved, diameter, number, water content and flux, fall and air
 velocity follow from the pixel's reflectivity, turbulence-corrected spectral width and lidar backscatter corrected for the
 drizzle below, by the look-up table of the radar's band.""",
 [I], "every combination of category and quality bits, rain flags and lidar signal",
 "Tests check mocked helper classes.",
 ["cloudnetpy/products/drizzle.py", "cloudnetpy/products/drizzle_tools.py"],
 [("drizzle classification", "cloudnetpy/products/drizzle_tools.py:DrizzleClassification"), ("status", "cloudnetpy/products/drizzle.py:RetrievalStatus")],
 observe=["drizzle product variables"])

prop("C18", "Site location in every product follows the documented precedence and range",
 """The latitude, longitude and altitude written to an instrument product come from moving-platform positions when given,
 else from the user's site metadata, else from the raw file's variables, else from its global attributes; positions of a
 stationary site are single numbers, longitudes lie between -180 and 180 degrees and signs and decimals are preserved.
 Heights are ranges along the beam projected to the vertical plus the site altitude.""",
 [I, CF], "every combination of available sources and every coordinate value, stationary or moving",
 "Tests check a few coordinates in the northern and eastern hemisphere.",
 ["cloudnetpy/utils.py", "cloudnetpy/instruments/cloudnet_instrument.py"],
 [("geolocation", "cloudnetpy/utils.py:add_site_geolocation")],
 observe=["latitude, longitude, altitude, height variables"])

prop("C19", "Model evaluation averages exactly the observations of each model grid box",
 """For every model time step and level, the downsampled observation is the average over exactly the observation pixels
 inside that box (time interval of the step, height interval of the level): cloud fraction by volume is the mean of valid cloud flags,
 by area the fraction of profiles with any cloud, and water contents are means of valid values; boxes without observations are missing.
 Model heights, which are above the ground of the model (else of the site), and observation heights are compared above mean sea level.
 Fractions lie between 0 and 1 and advection variants never use pixels outside their own window.""",
 [I], "every observation field with masks, and every model grid",
 "Tests check small fixed arrays.",
 ["cloudnetpy/model_evaluation/products/product_resampling.py", "cloudnetpy/model_evaluation/products/grid_methods.py"],
 [("downsampling", "cloudnetpy/model_evaluation/products/grid_methods.py:ProductGrid")],
 observe=["L3 product file"])

prop("C20", "Model and observation inputs of the evaluation are screened as documented",
 """The evaluation uses model levels below the altitude limit only, drops model values below the documented thresholds,
 turns target classes into cloud (droplets, or frozen falling hydrometeors, without aerosol or insects) and no-cloud flags and uses only
 reliable ice water content (status 1 and 3); missing or invalid required model data is an error that leaves any existing output as it was.
 An existing L3 file is replaced only when overwriting is requested.""",
 [I, H], "every model file content and processing history",
 "Tests check a fixed file.",
 ["cloudnetpy/model_evaluation/products/model_products.py", "cloudnetpy/model_evaluation/products/observation_products.py", "cloudnetpy/model_evaluation/file_handler.py"],
 [("model manager", "cloudnetpy/model_evaluation/products/model_products.py:ModelManager"), ("observation manager", "cloudnetpy/model_evaluation/products/observation_products.py:ObservationManager")],
 observe=["L3 product file"])

prop("C21", "The command line runs each requested step on the right inputs, in order",
 """For any requested products, available files and preferences, the command line processes each requested product that can be made
exactly once, after the products it depends on, and from the files made in the same command where there are any, otherwise from the preferred
available instrument or file of the data portal (falling back as documented when a source is missing); an unavailable product never prevents the others that do not need it.
Existing downloads are reused unless a re-download is forced, only downloading processes nothing, malformed requests are refused,
and outputs are named by date, site and product (instrument, model) in the documented folders.""",
 [H, CF, FS], "every request and every availability of instruments, raw files and products",
 "Tests mock one or two fixed scenarios.",
 ["cloudnetpy/cli.py"],
 [("orchestration", "cloudnetpy/cli.py:run")],
 observe=["sequence of processing calls and files"])

prop("C22", "Accumulated precipitation never decreases and survives counter resets",
 """Accumulated rainfall and snowfall written for a day start from zero, never decrease, equal the sum of the real increments
 even when the instrument's counter resets, and are consistent with missing values leaving gaps rather than jumps.""",
 [I], "every sequence of counter readings with resets and missing values",
 "Tests check two short sequences.",
 ["cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/weather_station.py", "cloudnetpy/instruments/rain_e_h3.py", "cloudnetpy/instruments/fd12p.py"],
 [("normalisation", "cloudnetpy/instruments/cloudnet_instrument.py:CSVFile.normalize_cumulative_amount")],
 observe=["rainfall_amount variable"])

prop("C23", "Lidar noise screening only removes data, and removes every non-physical value",
 """Screened backscatter is everywhere either masked or exactly the calibrated measurement, contains no negative or non-finite
 values, and depolarisation is kept only within its physical range; screening never alters other profiles'
 data or creates values, and calibration scales the data linearly.""",
 [I, CF], "every raw lidar field and calibration factor",
 "Tests use fixed sample files.",
 ["cloudnetpy/instruments/ceilometer.py", "cloudnetpy/instruments/ceilo.py"],
 [("noise screening", "cloudnetpy/instruments/ceilometer.py:NoisyData"), ("calibration", "cloudnetpy/instruments/ceilo.py:ceilo2nc")],
 observe=["beta, beta_raw, beta_smooth, depolarisation variables"])

prop("C24", "Every product file is a self-describing file that reads back what was computed",
 """Every product file follows the CF conventions header, has every variable with units, long name, declared type and
 dimensions of the right length, carries its site, date and type, and reads back the values (and missing values) that were computed;
 flag variables carry their definitions.""",
 [I, CF], "every product type and variable content",
 "Tests check some products from sample files.",
 ["cloudnetpy/output.py", "cloudnetpy/cloudnetarray.py", "cloudnetpy/metadata.py"],
 [("file initialisation", "cloudnetpy/output.py:init_file"), ("attributes", "cloudnetpy/output.py:update_attributes")],
 observe=["product files"])

prop("C25", "Rain is flagged exactly in profiles where liquid rain is measured",
 """A categorize profile is flagged rainy exactly when the disdrometer measures more than 0.25 mm/h of at least 31
 particles or, where the disdrometer is absent or has no value, the radar sees a falling echo above 3 dBZ without
 depolarisation (below -15 dB where measured) three gates above the lowest gate with data - and what falls is liquid:
 present weather code 57-68 where the weather sensor has a value, otherwise a wet-bulb temperature above 5 degC at the
 lowest gate. The flag is given for every profile, also if echoes are only near the top of the grid.""",
 [I, CF], "every profile: radar echo, disdrometer values, present weather codes and temperature on both sides of every threshold, each instrument present, absent or missing values",
 "Tests check the rain flag on one small array without disdrometer; the priority of the instruments and the phase of precipitation are combinations they do not run.",
 ["cloudnetpy/categorize/containers.py", "cloudnetpy/categorize/disdrometer.py"],
 [("radar, disdrometer and phase", "cloudnetpy/categorize/containers.py:ClassData._find_profiles_with_rain"), ("radar echo", "cloudnetpy/categorize/containers.py:ClassData._find_rain_from_radar_echo"), ("disdrometer", "cloudnetpy/categorize/containers.py:ClassData._find_rain_from_disdrometer")],
 observe=["rain_detected variable of the categorize file"])

prop("C26", "Liquid layers are found by the documented lidar peak criteria",
 """Without radar-based detection the droplet bit of every categorize profile is set exactly in: layers around lidar peaks
 that are higher than the four gates on each side and above 1e-6 m-1 sr-1, more than 100 m above the lowest gate, reach
 from the lowest rise (within 200 m) to the uppermost fall (within 150 m) of more than a quarter of the steepest one,
 are less than 300 m deep with at least three measured gates, and fall above the peak faster than 1e-7 per metre, while
 the liquid water path (interpolated over gaps) is not negative; extended upwards through a radar echo that continues
 from the layer top and ends within 500 m of the first freezing gate there; and never where colder than -38 degC.""",
 [I], "every backscatter profile, radar echo, temperature profile, gate spacing and water path including missing values",
 "Tests run the peak search on a handful of short arrays; limits in metres, missing gates, several peaks in a profile and extension through echoes combine in more ways than that.",
 ["cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/classify.py"],
 [("peak search", "cloudnetpy/categorize/droplet.py:find_liquid"), ("base and top", "cloudnetpy/categorize/droplet.py:ind_base"), ("extension upwards", "cloudnetpy/categorize/droplet.py:correct_liquid_top"), ("super-cold droplets", "cloudnetpy/categorize/classify.py:_fix_super_cold_liquid")],
 observe=["category_bits variable (bit 0) of the categorize file"])

prop("C27", "The cirrus filter removes exactly the model ice a radar could not see",
 """The cirrus-filtered cloud fraction of the model equals the cloud fraction wherever the cloud is not ice (ice content above ten times the liquid),
 is never larger than it, and where it is ice it is multiplied by the part of the in-cloud ice distribution (gamma, with the in-cloud mean and
 the variance expected for the horizontal resolution) that exceeds the smallest ice content detectable by the radar at the height of that
 box (radar sensitivity averaged over the box, same reference height); what remains below 0.05 is dropped. Boxes do not influence each other across profiles.
 Without ice clouds, or without known radar frequency and sensitivity, the variable is left out and the rest of the file is made.""",
 [I, CF], "every model profile of cloud fraction, ice, liquid, temperature and wind, every level spacing and site altitude, and every radar sensitivity profile and band",
 "Tests call the parts of the filter with small fixed arrays; evenly spaced levels, a site at sea level and the order of dimensions hide mistakes.",
 ["cloudnetpy/model_evaluation/products/advance_methods.py"],
 [("cirrus filter", "cloudnetpy/model_evaluation/products/advance_methods.py:AdvanceProductMethods.cf_cirrus_filter")],
 observe=["model_cf_cirrus variable of the L3 file"])

prop("C28", "Every category bit follows exactly from the measurements, step by step",
 """Melting is found from the peak of depolarization within the temperature range of the model (or, without one, from particles that speed up),
 smoothed in time; freezing starts at the median melting height of a profile, in long spans without melting at the zero level of the model, in between interpolated;
 liquid layers follow from the lidar and are extended by the radar; the insect probability follows from echo, depolarization, width, velocity, water path and temperature and is zero
 in, at and above liquid and melting and in rain, and above 0.8 means insects. What falls is every other radar echo that is not clutter nor the echo of liquid growing upwards, and cold high lidar echo.
 Then, in this order: undetected melting between drizzle and ice is added and insects beside or above melting become falling (five times), the rest of the lidar echo is aerosol,
 droplets below -38 degC freeze, ice with high depolarization becomes insects, cold insects near large regions become falling, regions of at most 10 pixels are noise, and
 still echoes beside cloud or rain are not clutter. No bit differs from the outcome of these steps.""",
 [I, CF], "every scene of radar, lidar, radiometer and model profiles, with and without depolarization, spectral width and liquid water path, of every radar band and grid spacing",
 "Tests call the steps one by one on arrays of a few pixels; how the steps act on each other and where their windows end shows only in whole scenes.",
 ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/melting.py", "cloudnetpy/categorize/freezing.py", "cloudnetpy/categorize/insects.py", "cloudnetpy/categorize/falling.py", "cloudnetpy/categorize/containers.py"],
 [("order of the steps", "cloudnetpy/categorize/classify.py:classify_measurements"), ("melting layer", "cloudnetpy/categorize/melting.py:find_melting_layer"),
  ("freezing region", "cloudnetpy/categorize/freezing.py:find_freezing_region"), ("insects", "cloudnetpy/categorize/insects.py:find_insects"), ("falling hydrometeors", "cloudnetpy/categorize/falling.py:find_falling_hydrometeors")],
 observe=["category_bits, quality_bits (clutter) and insect_prob of the categorize file"])

prop("C29", "Radar data are only ever cleaned of artefacts, exactly the documented ones",
 """Before the classification, radar values are removed but never changed: of RPG and BASTA radars a value without a value in the profile before or after, and velocities above 4 m/s in the first gate;
 with at least 300 profiles of data, a profile or range gate with exceptionally many values (more than 20 and more than three interquartile ranges above the upper quartile of its ten neighbours) of velocity,
 velocity deviation or depolarization is a stripe, whose values go unless there is a value beside the stripe; and only pixels with reflectivity, velocity and (if measured) spectral width remain.
 Every other measurement is in the categorize product. The sensitivity of the radar grows with range and gaseous attenuation from the weakest received power (0.1 percentile), and is the median of the clutter where there is clutter.""",
 [I, CF], "every pattern of values and missing values of the radar variables, of every radar, on days of any number of profiles",
 "Tests filter a few hand-made images through single methods; the effect of the order of the filters on a whole day, and neighbouring stripes, are not tried.",
 ["cloudnetpy/categorize/radar.py", "cloudnetpy/cloudnetarray.py", "cloudnetpy/utils.py"],
 [("stripes", "cloudnetpy/categorize/radar.py:Radar.filter_stripes"), ("speckle", "cloudnetpy/categorize/radar.py:Radar.filter_speckle_noise"), ("first gate", "cloudnetpy/categorize/radar.py:Radar.filter_1st_gate_artifact"),
  ("complete pixels", "cloudnetpy/categorize/radar.py:Radar.remove_incomplete_pixels"), ("sensitivity", "cloudnetpy/categorize/radar.py:Radar.calc_errors")],
 observe=["Z, v, width, ldr, v_sigma and Z_sensitivity of the categorize file"])

prop("C30", "Radar products keep exactly steady vertical profiles and significant echoes",
 """Of the profiles of a MIRA, Copernicus or Galileo cloud radar the product keeps exactly those whose known elevation (after the user's correction) is within 1.1 degrees of the zenith and whose known elevation and azimuth
 do not change since the profile before (the first: until the next) - by 1e-6 and 0.001 degrees for MIRA, 0.5 and 0.1 for Copernicus, 0.1 and 0.1 for Galileo, azimuth around the circle; a missing or (MIRA) impossible angle says nothing by itself. MIRA profiles sent with too little power do not count. With fewer than two such profiles the conversion fails with a time-stamp error.
 Every variable has a value exactly where it was measured and reflectivity and velocity are both significant: SNR at least the limit (MIRA, Galileo), 2 dB above the mean of the top 50 gates (Copernicus), background mask set (BASTA); Copernicus velocities within 9 m/s and widths within 3 m/s,
 no Galileo echo that is both below -15 dBZ and depolarised above -5 dB in the lowest 15 gates. MIRA depolarisation is dropped if it is positive on average or polarisation is off. Values are those measured, reflectivity and range with the documented corrections; nothing significant at all is a radar data error.""",
 [I, CF], "every sequence of antenna positions, known or missing, of transmit powers, and every pattern of signal strengths, values and missing values",
 "Tests convert sample files of radars that stand still and check method by method single sequences of angles without gaps.",
 ["cloudnetpy/instruments/nc_radar.py", "cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/copernicus.py", "cloudnetpy/instruments/galileo.py", "cloudnetpy/instruments/basta.py"],
 [("steady and vertical", "cloudnetpy/instruments/nc_radar.py:NcRadar.add_zenith_and_azimuth_angles"), ("significance", "cloudnetpy/instruments/nc_radar.py:NcRadar.screen_by_snr"),
  ("common mask", "cloudnetpy/instruments/nc_radar.py:NcRadar.mask_invalid_data"), ("power", "cloudnetpy/instruments/mira.py:Mira.screen_low_power"), ("clutter", "cloudnetpy/instruments/galileo.py:Galileo.mask_clutter")],
 observe=["time, range, angles, Zh, v, width, ldr and SNR of the radar product, exceptions"])
