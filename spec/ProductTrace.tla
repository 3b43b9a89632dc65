---------------------------- MODULE ProductTrace ----------------------------
(* C24: product files of the real code.                                       *)
(*  store : computed arrays (cells as bit patterns of the stored type) and    *)
(*          what a reader finds; sources and keys of carried-over variables   *)
(*  format: the header and the variables of a product of any kind             *)
EXTENDS TraceBase

Has(s, x) == \E i \in DOMAIN s : s[i] = x
SetOf(s) == {s[i] : i \in DOMAIN s}
Floats == {"f4", "f8"}
Ints == {"i2", "i4"}

(* ---- reading back ---- *)
Expand(a) == IF a.scalar /\ a.size > 1 THEN [i \in 1..a.size |-> a.cells[1]] ELSE a.cells
StoreArray(a) ==
    C("PRESENT", a.present)
    \cup (IF a.present
          THEN C("TYPE", a.type = a.want)
               \cup C("DIMENSIONS", a.dims = a.wantdims)
               \cup C("READS_BACK", a.back = Expand(a))
               \cup C("MISSING_DECLARED", Has(a.back, "MISSING") => a.declared)
               \cup C("ATTRIBUTES", a.attrs = a.wantattrs)
          ELSE {})
Own(e) == {e.own[i].name : i \in DOMAIN e.own}
JudgeStore(e) ==
    IF \E i \in DOMAIN e.own : e.own[i].bad
    THEN C("MISFIT_IS_ERROR", e.status \notin {"ok", "TIMEOUT"})
    ELSE C("STORED", e.status = "ok")
         \cup (IF e.status = "ok"
               THEN UNION {StoreArray(e.own[i]) : i \in DOMAIN e.own}
                    \cup UNION {C("CARRIED_OVER", (e.other[i].present = (Has(e.source, e.other[i].name) /\ Has(e.keys, e.other[i].name)))
                                                   /\ (e.other[i].present => e.other[i].same))
                                : i \in {j \in DOMAIN e.other : e.other[j].name \notin Own(e)}}
               ELSE {})

(* ---- the format ---- *)
Units == [range |-> "m", height |-> "m", altitude |-> "m", latitude |-> "degree_north", longitude |-> "degree_east", Zh |-> "dBZ", Z |-> "dBZ",
          v |-> "m s-1", width |-> "m s-1", v_sigma |-> "m s-1", ldr |-> "dB", sldr |-> "dB", lwp |-> "kg m-2", iwv |-> "kg m-2", radar_frequency |-> "GHz",
          nyquist_velocity |-> "m s-1", beta |-> "sr-1 m-1", beta_raw |-> "sr-1 m-1", beta_smooth |-> "sr-1 m-1", zenith_angle |-> "degree",
          azimuth_angle |-> "degree", temperature |-> "K", pressure |-> "Pa", rainfall_rate |-> "m s-1", air_temperature |-> "K", air_pressure |-> "Pa",
          relative_humidity |-> "1", wind_speed |-> "m s-1", wind_direction |-> "degree", rainfall_amount |-> "m", wavelength |-> "nm",
          lidar_wavelength |-> "nm", iwc |-> "kg m-3", lwc |-> "kg m-3", der |-> "m", ier |-> "m", N_scaled |-> "m-3", epsilon |-> "m2 s-3", Do |-> "m",
          drizzle_N |-> "m-3", drizzle_lwc |-> "kg m-3", drizzle_lwf |-> "kg m-2 s-1", v_drizzle |-> "m s-1", v_air |-> "m s-1", S |-> "sr", mu |-> "1",
          uwind |-> "m s-1", vwind |-> "m s-1", q |-> "1", Tw |-> "K", category_bits |-> "1", quality_bits |-> "1", target_classification |-> "1",
          depolarisation |-> "1", depolarisation_raw |-> "1", radar_gas_atten |-> "dB", radar_liquid_atten |-> "dB", insect_prob |-> "1",
          cloud_base_height_amsl |-> "m", cloud_top_height_amsl |-> "m", cloud_base_height_agl |-> "m", cloud_top_height_agl |-> "m",
          model_height |-> "m", diameter |-> "m", velocity |-> "m s-1", n_particles |-> "1", radar_reflectivity |-> "dBZ"]
Standard == [time |-> "time", altitude |-> "altitude", latitude |-> "latitude", longitude |-> "longitude", height |-> "height_above_mean_sea_level"]
\* values that a user may meet in these variables in some file
MustDefine == [category_bits |-> 0..5, quality_bits |-> 0..9, target_classification |-> 0..10, detection_status |-> 0..9, cloud_top_height_status |-> 0..4,
               signal_source_status |-> 0..3, radar_attenuation_status |-> 0..6, iwc_retrieval_status |-> 0..7, ier_retrieval_status |-> 0..7,
               lwc_retrieval_status |-> 0..6, der_retrieval_status |-> 0..4, drizzle_retrieval_status |-> 0..5]
Coordinates == {"time", "range", "height", "altitude", "latitude", "longitude", "model_time", "model_height"}
TimeUnits(e) == "hours since " \o e.date[1] \o "-" \o e.date[2] \o "-" \o e.date[3] \o " 00:00:00 +00:00"

Variable(e, v) ==
    C("NAMED", v.long_name # "" /\ v.units # "")
    \cup C("SHAPE", /\ Len(v.dims) = Len(v.shape)
                    /\ \A i \in DOMAIN v.dims : v.dims[i] \in DOMAIN e.dims /\ e.dims[v.dims[i]] = v.shape[i])
    \cup C("FINITE", v.nonfinite = 0)
    \cup C("TYPE", v.type \in Floats \cup Ints /\ (v.name \in Coordinates => v.type \in Floats))
    \cup (IF v.name \in DOMAIN Units THEN C("UNITS", v.units = Units[v.name]) ELSE {})
    \cup (IF v.name \in DOMAIN Standard /\ e.level # "L3" THEN C("STANDARD_NAME", v.standard_name = Standard[v.name]) ELSE {})
    \cup (IF v.name \in {"time", "model_time"} /\ e.level # "L3" THEN C("TIME_UNITS", v.units = TimeUnits(e)) ELSE {})
    \cup (IF v.name = "time" THEN C("TIME_AXIS", v.calendar = "standard" /\ Len(v.dims) = 1 /\ v.dims = <<"time">> /\ (e.level # "L3" => v.axis = "T")) ELSE {})
    \* a flag is an integer, and whatever occurs in the file is explained
    \cup (IF v.flag
          THEN C("FLAG_TYPE", v.type \in Ints)
               \cup C("DEFINITION", v.kind = v.wantkind /\ \A i \in DOMAIN v.occurring : Has(v.codes, v.occurring[i]))
               \cup (IF v.name \in DOMAIN MustDefine THEN C("DEFINED_VALUES", MustDefine[v.name] \subseteq SetOf(v.codes)) ELSE {})
          ELSE {})
    \cup C("ANCILLARY", \A i \in DOMAIN v.ancillary : \E j \in DOMAIN e.vars : e.vars[j].name = v.ancillary[i])

Needed(level) == CASE level = "L1b" -> {"time"} [] level = "L3" -> {"time"}
                   [] OTHER -> {"time", "height", "altitude", "latitude", "longitude"}
JudgeFormat(e) ==
    C("MADE", e.status = "ok")
    \cup (IF e.status # "ok" THEN {}
          ELSE C("CONVENTIONS", e.attrs.conventions = "CF-1.8" /\ e.model = "NETCDF4_CLASSIC")
               \cup C("VERSION", e.attrs.version = e.version)
               \cup C("UUID", e.attrs.uuid = e.uuid)
               \cup C("FILE_TYPE", e.attrs.type = e.type)
               \cup C("DATE", <<e.attrs.year, e.attrs.month, e.attrs.day>> = e.date)
               \cup C("LOCATION", e.attrs.location = e.location /\ e.titlehas)
               \cup C("TEXTS", e.attrs.history # "" /\ e.attrs.source # "" /\ e.attrs.title # "" /\ (e.level # "L3" => e.attrs.references # ""))
               \cup C("COORDINATES", \A x \in Needed(e.level) : \E i \in DOMAIN e.vars : e.vars[i].name = x)
               \cup UNION {Variable(e, e.vars[i]) : i \in DOMAIN e.vars})

Judge(e) == IF e.ev = "store" THEN JudgeStore(e) ELSE JudgeFormat(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
