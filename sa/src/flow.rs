//! Rules decided by the abstract interpreter on the whole analysis.
use crate::interp::*;
use crate::rules::*;
use crate::val::*;
use std::collections::BTreeMap;

pub const MAIN: &str = "analyze_audio";

pub fn is_key_setting(n: &str) -> bool {
    n.contains("key_") || n.ends_with("_key") || n.contains("chroma") || n == "soft_mapping_sigma" || n == "center_frequency"
}
pub fn is_tempo_setting(n: &str) -> bool {
    !is_key_setting(n)
        && (n.contains("onset")
            || n.contains("bpm")
            || n.contains("tempogram")
            || n.contains("hpss"))
        && !n.starts_with("debug_")
}
pub const TEMPO_OUT: &[&str] = &[
    "bpm",
    "bpm_confidence",
    "beat_grid.",
    "grid_stability",
    "metadata.tempogram_",
    "metadata.duration_seconds",
    "metadata.sample_rate",
    "metadata.onset_method_consensus",
    "metadata.methods_used",
    "metadata.algorithm_version",
];
pub const KEY_OUT: &[&str] = &["key", "key_confidence", "key_clarity"];
pub fn is_in(n: &str, set: &[&str]) -> bool {
    set.iter().any(|s| n == *s || (s.ends_with(['.', '_']) && n.starts_with(s)))
}

fn names(cx: &Cx, l: Lab, pred: impl Fn(&str) -> bool) -> Vec<String> {
    let fs = cx.cfg_fields();
    l.bits().into_iter().filter_map(|i| fs.get(i).cloned()).filter(|n| pred(n)).collect()
}
fn short(v: &[String]) -> String {
    if v.len() > 6 {
        format!("{}, … ({} settings)", v[..6].join(", "), v.len())
    } else {
        v.join(", ")
    }
}

/// no label satisfying `bad` may reach the selected outputs
fn nonint(
    cx: &Cx,
    s: &Sc,
    outs: impl Fn(&str) -> bool,
    bad: impl Fn(&str) -> bool,
    extra: &[(usize, &str)],
    with_fail: bool,
) -> Report {
    let Some(o) = cx.run(MAIN, s) else { return missing(MAIN) };
    let mut r = o.rep.clone();
    let res = cx.result(&o);
    if res.is_empty() {
        r.undecided.push(format!("{}: no success path", s.name));
    }
    let mut chk = |n: &str, l: Lab| {
        let hit = names(cx, l, &bad);
        let ex: Vec<String> = extra.iter().filter(|(i, _)| l.has(*i)).map(|(_, n)| n.to_string()).collect();
        let all: Vec<String> = hit.iter().cloned().chain(ex).collect();
        r.obligations += 1;
        if all.is_empty() {
            r.discharged += 1;
            if r.samples.len() < 12 {
                r.samples.push(format!("[{}] {} independent", s.name, n));
            }
        } else {
            for h in &all {
                r.findings.insert(Finding {
                    key: format!("{}:{}<-{}", s.name, n, h),
                    msg: format!("[{}] output `{}` can be influenced by {}", s.name, n, short(&all)),
                    at: "src/lib.rs analyze_audio".into(),
                });
            }
        }
    };
    for (n, v) in &res {
        if outs(n) {
            chk(n, v.all());
        }
    }
    if with_fail {
        chk("Ok/Err", o.ret.dlab());
    }
    r
}
pub fn missing(n: &str) -> Report {
    let mut r = Report::default();
    r.undecided.push(format!("function `{}` not found", n));
    r
}
pub fn all(rs: Vec<Report>) -> Report {
    let mut r = Report::default();
    for x in rs {
        r.merge(x);
    }
    r
}

pub fn s03(cx: &Cx) -> Report {
    let jobs = vec![0, 1];
    all(par(jobs, |j| {
        if j == 0 {
            let mut s = sc("any configuration");
            s.clock = true;
            nonint(
                cx,
                &s,
                |n| n != "metadata.processing_time_ms",
                |n| n.starts_with("debug_"),
                &[(L_LOG, "the log level")],
                true,
            )
        } else {
            nonint(
                cx,
                &sc("multi-resolution on").on("enable_tempogram_multi_resolution"),
                |n| n != "metadata.tempogram_candidates" && n != "metadata.processing_time_ms",
                |n| n == "emit_tempogram_candidates",
                &[],
                true,
            )
        }
    }))
}
pub fn s04(cx: &Cx) -> Report {
    nonint(cx, &sc("any configuration"), |n| is_in(n, TEMPO_OUT), is_key_setting, &[], false)
}
pub const TEMPO_STAGES: &[&str] = &[
    "estimate_bpm",
    "estimate_bpm_with_guardrails",
    "estimate_bpm_tempogram",
    "estimate_bpm_tempogram_band_fusion",
    "estimate_bpm_tempogram_with_candidates",
    "estimate_bpm_tempogram_with_candidates_band_fusion",
    "multi_resolution_tempogram_from_samples",
];
pub fn s05(cx: &Cx) -> Report {
    let mut s = sc("beat-synchronous off").off("enable_key_beat_synchronous");
    for f in TEMPO_STAGES {
        s = s.f(f, Fz::Label(L_STAGE));
    }
    s = s.f("generate_beat_grid", Fz::Label(L_STAGE + 1));
    nonint(
        cx,
        &s,
        |n| is_in(n, KEY_OUT),
        is_tempo_setting,
        &[(L_STAGE, "a tempo estimate"), (L_STAGE + 1, "the beat grid")],
        false,
    )
}

// ---- forced stage values ----
/// value of a type with struct fields of the given names overridden, found by field name
pub fn with_fields(it: &Interp, t: usize, f: &dyn Fn(&str, V) -> V) -> V {
    use crate::ir::TyK;
    let v = it.top_of(t);
    match (it.p.ty(t), &v.k) {
        (TyK::Adt { vars: Some(vs), kind, .. }, K::S(x)) if kind == "struct" => V::s(
            vs[0].fs.iter().zip(x.iter()).map(|(fd, y)| {
                let y = if matches!(y.k, K::S(_)) { with_fields(it, fd.t, f) } else { y.clone() };
                f(&fd.n, y)
            }).collect(),
        ),
        (TyK::Adt { vars: Some(vs), kind, .. }, K::E(x)) if kind == "enum" => V::e(
            vs.iter()
                .enumerate()
                .filter(|(i, _)| x.vs.contains_key(&(*i as u32)))
                .map(|(i, d)| (i as u32, d.fs.iter().map(|fd| with_fields(it, fd.t, f)).collect()))
                .collect(),
        ),
        (TyK::Tuple { ts }, _) => V::s(ts.iter().map(|t| with_fields(it, *t, f)).collect()),
        (TyK::Adt { def, args, .. }, K::C(c)) if def.ends_with("Vec") && !args.is_empty() => {
            V::c(with_fields(it, args[0], f), c.lo, c.hi)
        }
        _ => v,
    }
}
/// only the Ok / given variant
pub fn only(v: V, k: u32) -> V {
    match &v.k {
        K::E(e) => V::e(e.vs.iter().filter(|(x, _)| **x == k).map(|(x, y)| (*x, y.clone())).collect()),
        _ => v,
    }
}
const T_BPM: u128 = 1 << 100;
const T_CONF: u128 = 1 << 101;
fn tg_tok(it: &Interp, t: usize) -> V {
    only(
        with_fields(it, t, &|n, v| match n {
            "bpm" => V::f(Fl::new(1e-3, 1e4, false)).tok(T_BPM).with(Lab::one(L_STAGE)),
            "confidence" => V::f(Fl::new(0.0, 1.0, false)).tok(T_CONF).with(Lab::one(L_STAGE)),
            _ => v.with(Lab::one(L_STAGE)),
        }),
        0,
    )
}
pub fn s06(cx: &Cx) -> Report {
    let base = |name: &str| {
        let mut s = sc(name).off("force_legacy_bpm");
        for f in TEMPO_STAGES {
            if f.contains("tempogram") {
                s = s.f(f, Fz::Ret(tg_tok));
            } else {
                s = s.f(f, Fz::Label(L_STAGE + 1));
            }
        }
        // the shared spectrogram exists
        s.f("compute_stft", Fz::Ret(nonempty_ok))
    };
    let jobs: Vec<(Sc, bool)> = vec![
        (base("fusion on").on("enable_bpm_fusion"), false),
        (base("fusion off").off("enable_bpm_fusion"), true),
    ];
    all(par(jobs, |(s, conf)| {
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        let res = cx.result(&o);
        if o.forced.iter().filter(|f| f.contains("tempogram")).count() == 0 {
            r.undecided.push("no tempogram stage is called".into());
        }
        let mut outs = vec![("bpm", T_BPM)];
        if conf {
            outs.push(("bpm_confidence", T_CONF));
        }
        for (n, t) in outs {
            let Some(v) = res.get(n) else {
                r.undecided.push(format!("no field {}", n));
                continue;
            };
            r.ob(
                v.tok == t,
                &format!("{}:{}:copy", s.name, n),
                &format!("[{}] `{}` is not always the tempogram's value unchanged", s.name, n),
                "src/lib.rs analyze_audio",
                || format!("[{}] {} is an unmodified copy of the tempogram estimate", s.name, n),
            );
            let l = v.all();
            let bad = names(cx, l, |x| {
                (is_tempo_setting(x) && !x.contains("tempogram") && x != "hpss_margin" && x != "force_legacy_bpm" && x != "enable_bpm_fusion")
                    && (x.contains("onset") || x.contains("legacy"))
            });
            let leg = l.has(L_STAGE + 1);
            r.ob(
                bad.is_empty() && !leg,
                &format!("{}:{}:dep", s.name, n),
                &format!("[{}] `{}` depends on {}{}", s.name, n, short(&bad), if leg { " the legacy estimate" } else { "" }),
                "src/lib.rs analyze_audio",
                || format!("[{}] {} independent of onsets and of the legacy estimate", s.name, n),
            );
        }
        r
    }))
}
pub fn nonempty_ok(it: &Interp, t: usize) -> V {
    let v = only(it.top_of(t), 0);
    match &v.k {
        K::E(e) => {
            let x = &e.vs[&0][0];
            match &x.k {
                K::C(c) => V::e(vec![(0, vec![V::c(
                    match &c.el.k {
                        K::C(d) => V::c(d.el.clone(), 1, LMAX),
                        _ => c.el.clone(),
                    },
                    1,
                    LMAX,
                )])]),
                _ => v.clone(),
            }
        }
        _ => v,
    }
}

pub fn s07(cx: &Cx) -> Report {
    // (name, overrides, settings that only parameterise the disabled feature)
    let f = |p: &[&str]| -> Vec<String> {
        let all = cx.cfg_fields();
        let mut v = vec![];
        for x in p {
            if let Some(pre) = x.strip_suffix('*') {
                v.extend(all.iter().filter(|n| n.starts_with(pre)).cloned());
            } else {
                v.push(x.to_string());
            }
        }
        v
    };
    let jobs: Vec<(Sc, Vec<String>)> = vec![
        (sc("normalization off").off("enable_normalization"), f(&["normalization"])),
        (sc("silence trimming off").off("enable_silence_trimming"), f(&["min_amplitude_db"])),
        (
            sc("onset consensus off").off("enable_onset_consensus"),
            f(&["onset_threshold_percentile", "onset_consensus_tolerance_ms", "onset_consensus_weights", "enable_hpss_onsets"]),
        ),
        (
            sc("hpss onsets and percussive fallback off").off("enable_hpss_onsets").off("enable_tempogram_percussive_fallback"),
            f(&["hpss_margin"]),
        ),
        (sc("legacy guardrails off").off("enable_legacy_bpm_guardrails"), f(&["legacy_bpm_*"])),
        (
            sc("multi-resolution off").off("enable_tempogram_multi_resolution"),
            f(&["tempogram_multi_res_*", "enable_tempogram_percussive_fallback"]),
        ),
        (
            sc("band fusion and mel novelty off")
                .off("enable_tempogram_band_fusion")
                .off("enable_tempogram_mel_novelty")
                .c("tempogram_band_consensus_bonus", Cv::F(0.0, 0.0)),
            f(&["tempogram_band_low_max_hz", "tempogram_band_mid_max_hz", "tempogram_band_high_max_hz", "tempogram_band_w_low", "tempogram_band_w_mid", "tempogram_band_w_high", "tempogram_band_support_threshold", "tempogram_mel_*"]),
        ),
        (
            sc("band fusion off").off("enable_tempogram_band_fusion"),
            f(&["tempogram_band_low_max_hz", "tempogram_band_mid_max_hz", "tempogram_band_high_max_hz", "tempogram_band_w_low", "tempogram_band_w_mid", "tempogram_band_w_high"]),
        ),
        (sc("mel novelty off").off("enable_tempogram_mel_novelty"), f(&["tempogram_mel_*"])),
        (sc("key hpss mask off").off("enable_key_hpss_harmonic"), f(&["key_hpss_*"])),
        (sc("key harmonic mask off").off("enable_key_harmonic_mask"), f(&["key_harmonic_mask_power"])),
        (
            sc("key mask and smoothing off").off("enable_key_harmonic_mask").off("enable_key_spectrogram_time_smoothing"),
            f(&["key_spectrogram_smooth_margin"]),
        ),
        (sc("key stft override off").off("enable_key_stft_override"), f(&["key_stft_*"])),
        (sc("hpcp off").off("enable_key_hpcp"), f(&["key_hpcp_*", "enable_key_hpcp_*"])),
        (sc("whitening off").off("enable_key_hpcp_whitening"), f(&["key_hpcp_whitening_*"])),
        (sc("bass blend off").off("enable_key_hpcp_bass_blend"), f(&["key_hpcp_bass_*"])),
        (sc("tuning off").off("enable_key_tuning_compensation"), f(&["key_tuning_*"])),
        (sc("edge trim off").off("enable_key_edge_trim"), f(&["key_edge_trim_*"])),
        (
            sc("frame weighting off").off("enable_key_frame_weighting"),
            f(&["key_min_tonalness", "key_tonalness_power", "key_energy_power"]),
        ),
        (sc("segment voting off").off("enable_key_segment_voting"), f(&["key_segment_*"])),
        (sc("multi-scale off").off("enable_key_multi_scale"), f(&["key_multi_scale_*"])),
        (sc("ensemble off").off("enable_key_ensemble"), f(&["key_ensemble_*"])),
        (sc("mode heuristic off").off("enable_key_mode_heuristic"), f(&["key_mode_*"])),
        (sc("minor bonus off").off("enable_key_minor_harmonic_bonus"), f(&["key_minor_*"])),
    ];
    all(par(jobs, |(s, inert)| {
        nonint(
            cx,
            &s,
            |n| n != "metadata.processing_time_ms",
            |n| inert.iter().any(|x| x == n),
            &[],
            true,
        )
    }))
}

/// (function, parameter path, setting)
pub const FORWARD: &[(&str, &str, &str)] = &[
    ("detect_spectral_flux_onsets", "threshold_percentile", "onset_threshold_percentile"),
    ("detect_hfc_onsets", "threshold_percentile", "onset_threshold_percentile"),
    ("detect_hpss_onsets", "threshold_percentile", "onset_threshold_percentile"),
    ("hpss_decompose", "margin", "hpss_margin"),
    ("vote_onsets", "weights", "onset_consensus_weights"),
    ("vote_onsets", "tolerance_ms", "onset_consensus_tolerance_ms"),
    ("detect_energy_flux_onsets", "frame_size", "frame_size"),
    ("detect_energy_flux_onsets", "hop_size", "hop_size"),
    ("detect_and_trim", "detector.threshold_db", "min_amplitude_db"),
    ("detect_and_trim", "detector.frame_size", "frame_size"),
    ("normalize", "config.method", "normalization"),
    ("estimate_bpm_with_guardrails", "hop_size", "hop_size"),
    ("estimate_bpm_with_guardrails", "min_bpm", "min_bpm"),
    ("estimate_bpm_with_guardrails", "max_bpm", "max_bpm"),
    ("estimate_bpm_with_guardrails", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_with_guardrails", "guardrails.preferred_min", "legacy_bpm_preferred_min"),
    ("estimate_bpm_with_guardrails", "guardrails.preferred_max", "legacy_bpm_preferred_max"),
    ("estimate_bpm_with_guardrails", "guardrails.soft_min", "legacy_bpm_soft_min"),
    ("estimate_bpm_with_guardrails", "guardrails.soft_max", "legacy_bpm_soft_max"),
    ("estimate_bpm_with_guardrails", "guardrails.mul_preferred", "legacy_bpm_conf_mul_preferred"),
    ("estimate_bpm_with_guardrails", "guardrails.mul_soft", "legacy_bpm_conf_mul_soft"),
    ("estimate_bpm_with_guardrails", "guardrails.mul_extreme", "legacy_bpm_conf_mul_extreme"),
    ("estimate_bpm", "hop_size", "hop_size"),
    ("estimate_bpm", "min_bpm", "min_bpm"),
    ("estimate_bpm", "max_bpm", "max_bpm"),
    ("estimate_bpm", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_tempogram", "hop_size", "hop_size"),
    ("estimate_bpm_tempogram", "min_bpm", "min_bpm"),
    ("estimate_bpm_tempogram", "max_bpm", "max_bpm"),
    ("estimate_bpm_tempogram", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_tempogram_band_fusion", "hop_size", "hop_size"),
    ("estimate_bpm_tempogram_band_fusion", "min_bpm", "min_bpm"),
    ("estimate_bpm_tempogram_band_fusion", "max_bpm", "max_bpm"),
    ("estimate_bpm_tempogram_band_fusion", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_tempogram_with_candidates", "min_bpm", "min_bpm"),
    ("estimate_bpm_tempogram_with_candidates", "max_bpm", "max_bpm"),
    ("estimate_bpm_tempogram_with_candidates", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_tempogram_with_candidates_band_fusion", "min_bpm", "min_bpm"),
    ("estimate_bpm_tempogram_with_candidates_band_fusion", "max_bpm", "max_bpm"),
    ("estimate_bpm_tempogram_with_candidates_band_fusion", "bpm_resolution", "bpm_resolution"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.enabled", "enable_tempogram_band_fusion"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.low_max_hz", "tempogram_band_low_max_hz"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.mid_max_hz", "tempogram_band_mid_max_hz"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.high_max_hz", "tempogram_band_high_max_hz"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.w_full", "tempogram_band_w_full"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.w_low", "tempogram_band_w_low"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.w_mid", "tempogram_band_w_mid"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.w_high", "tempogram_band_w_high"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.seed_only", "tempogram_band_seed_only"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.support_threshold", "tempogram_band_support_threshold"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.consensus_bonus", "tempogram_band_consensus_bonus"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.enable_mel", "enable_tempogram_mel_novelty"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.mel_n_mels", "tempogram_mel_n_mels"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.mel_fmin_hz", "tempogram_mel_fmin_hz"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.mel_fmax_hz", "tempogram_mel_fmax_hz"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.mel_max_filter_bins", "tempogram_mel_max_filter_bins"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.w_mel", "tempogram_mel_weight"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.novelty_w_spectral", "tempogram_novelty_w_spectral"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.novelty_w_energy", "tempogram_novelty_w_energy"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.novelty_w_hfc", "tempogram_novelty_w_hfc"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.novelty_local_mean_window", "tempogram_novelty_local_mean_window"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.novelty_smooth_window", "tempogram_novelty_smooth_window"),
    ("estimate_bpm_tempogram_band_fusion", "band_cfg.superflux_max_filter_bins", "tempogram_superflux_max_filter_bins"),
    ("multi_resolution_tempogram_from_samples", "frame_size", "frame_size"),
    ("multi_resolution_tempogram_from_samples", "min_bpm", "min_bpm"),
    ("multi_resolution_tempogram_from_samples", "max_bpm", "max_bpm"),
    ("multi_resolution_tempogram_from_samples", "bpm_resolution", "bpm_resolution"),
    ("multi_resolution_tempogram_from_samples", "top_k", "tempogram_multi_res_top_k"),
    ("multi_resolution_tempogram_from_samples", "w512", "tempogram_multi_res_w512"),
    ("multi_resolution_tempogram_from_samples", "w256", "tempogram_multi_res_w256"),
    ("multi_resolution_tempogram_from_samples", "w1024", "tempogram_multi_res_w1024"),
    ("multi_resolution_tempogram_from_samples", "structural_discount", "tempogram_multi_res_structural_discount"),
    ("multi_resolution_tempogram_from_samples", "double_time_512_factor", "tempogram_multi_res_double_time_512_factor"),
    ("multi_resolution_tempogram_from_samples", "margin_threshold", "tempogram_multi_res_margin_threshold"),
    ("multi_resolution_tempogram_from_samples", "use_human_prior", "tempogram_multi_res_use_human_prior"),
    ("harmonic_spectrogram_hpss_median_mask", "frame_step", "key_hpss_frame_step"),
    ("harmonic_spectrogram_hpss_median_mask", "time_margin", "key_hpss_time_margin"),
    ("harmonic_spectrogram_hpss_median_mask", "freq_margin", "key_hpss_freq_margin"),
    ("harmonic_spectrogram_hpss_median_mask", "mask_power", "key_hpss_mask_power"),
    ("harmonic_spectrogram_time_mask", "margin", "key_spectrogram_smooth_margin"),
    ("harmonic_spectrogram_time_mask", "power", "key_harmonic_mask_power"),
    ("smooth_spectrogram_time", "margin", "key_spectrogram_smooth_margin"),
    ("estimate_tuning_offset_semitones_from_spectrogram", "frame_step", "key_tuning_frame_step"),
    ("estimate_tuning_offset_semitones_from_spectrogram", "peak_rel_threshold", "key_tuning_peak_rel_threshold"),
    ("extract_beat_synchronous_chroma", "soft_mapping", "soft_chroma_mapping"),
    ("extract_beat_synchronous_chroma", "soft_mapping_sigma", "soft_mapping_sigma"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "soft_mapping_sigma", "soft_mapping_sigma"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "peaks_per_frame", "key_hpcp_peaks_per_frame"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "num_harmonics", "key_hpcp_num_harmonics"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "harmonic_decay", "key_hpcp_harmonic_decay"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "mag_power", "key_hpcp_mag_power"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "enable_whitening", "enable_key_hpcp_whitening"),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", "whitening_smooth_bins", "key_hpcp_whitening_smooth_bins"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "soft_mapping_sigma", "soft_mapping_sigma"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "peaks_per_frame", "key_hpcp_peaks_per_frame"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "num_harmonics", "key_hpcp_num_harmonics"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "harmonic_decay", "key_hpcp_harmonic_decay"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "mag_power", "key_hpcp_mag_power"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "enable_whitening", "enable_key_hpcp_whitening"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "whitening_smooth_bins", "key_hpcp_whitening_smooth_bins"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "bass_fmin_hz", "key_hpcp_bass_fmin_hz"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "bass_fmax_hz", "key_hpcp_bass_fmax_hz"),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", "bass_weight", "key_hpcp_bass_weight"),
    ("sharpen_chroma", "power", "chroma_sharpening_power"),
    ("detect_key_ensemble", "kk_weight", "key_ensemble_kk_weight"),
    ("detect_key_ensemble", "temperley_weight", "key_ensemble_temperley_weight"),
    ("detect_key_multi_scale", "segment_lengths", "key_multi_scale_lengths"),
    ("detect_key_multi_scale", "enable_mode_heuristic", "enable_key_mode_heuristic"),
    ("detect_key_multi_scale", "mode_third_ratio_margin", "key_mode_third_ratio_margin"),
    ("detect_key_multi_scale", "enable_minor_harmonic_bonus", "enable_key_minor_harmonic_bonus"),
    ("detect_key_multi_scale", "minor_leading_tone_bonus_weight", "key_minor_leading_tone_bonus_weight"),
];

/// (mode, overrides, settings expected to matter, outputs among which one must react)
fn live_modes() -> Vec<(Sc, Vec<&'static str>, Vec<&'static str>)> {
    let key = vec!["key", "key_confidence", "key_clarity"];
    let k0 = |n: &str| sc(n);
    let tempo = |n: &str| sc(n).off("force_legacy_bpm");
    vec![
        (
            sc("legacy estimator forced").on("force_legacy_bpm").on("enable_onset_consensus").on("enable_hpss_onsets").on("enable_legacy_bpm_guardrails"),
            vec![
                "min_amplitude_db", "normalization", "onset_threshold_percentile", "onset_consensus_tolerance_ms",
                "onset_consensus_weights", "hpss_margin", "legacy_bpm_preferred_min", "legacy_bpm_preferred_max",
                "legacy_bpm_soft_min", "legacy_bpm_soft_max", "legacy_bpm_conf_mul_preferred", "legacy_bpm_conf_mul_soft",
                "legacy_bpm_conf_mul_extreme", "min_bpm", "max_bpm", "bpm_resolution", "frame_size", "hop_size",
                "enable_normalization", "enable_silence_trimming",
            ],
            vec!["bpm", "bpm_confidence"],
        ),
        (
            sc("legacy estimator forced, switches").on("force_legacy_bpm"),
            vec!["enable_onset_consensus", "enable_hpss_onsets", "enable_legacy_bpm_guardrails"],
            vec!["bpm", "bpm_confidence"],
        ),
        (
            tempo("tempogram, beat tracking").on("enable_onset_consensus").on("enable_hpss_onsets"),
            vec!["onset_threshold_percentile", "onset_consensus_tolerance_ms", "onset_consensus_weights", "hpss_margin", "hop_size", "frame_size"],
            vec!["beat_grid.beats", "grid_stability"],
        ),
        (
            tempo("multi-resolution tempogram")
                .on("enable_tempogram_multi_resolution")
                .on("enable_tempogram_percussive_fallback")
                .on("enable_tempogram_band_fusion")
                .on("enable_tempogram_mel_novelty")
                .off("enable_onset_consensus")
                .off("enable_bpm_fusion")
                .f("estimate_bpm", Fz::OkNone)
                .f("estimate_bpm_with_guardrails", Fz::OkNone),
            vec![
                "min_amplitude_db", "normalization", "tempogram_multi_res_top_k", "tempogram_multi_res_w512",
                "tempogram_multi_res_w256", "tempogram_multi_res_w1024", "tempogram_multi_res_structural_discount",
                "tempogram_multi_res_double_time_512_factor", "tempogram_multi_res_margin_threshold",
                "tempogram_multi_res_use_human_prior", "tempogram_band_low_max_hz", "tempogram_band_mid_max_hz",
                "tempogram_band_high_max_hz", "tempogram_band_w_full", "tempogram_band_w_low", "tempogram_band_w_mid",
                "tempogram_band_w_high", "tempogram_band_seed_only", "tempogram_band_support_threshold",
                "tempogram_band_consensus_bonus", "tempogram_novelty_w_spectral", "tempogram_novelty_w_energy",
                "tempogram_novelty_w_hfc", "tempogram_novelty_local_mean_window", "tempogram_novelty_smooth_window",
                "tempogram_mel_n_mels", "tempogram_mel_fmin_hz", "tempogram_mel_fmax_hz", "tempogram_mel_max_filter_bins",
                "tempogram_mel_weight", "tempogram_superflux_max_filter_bins", "tempogram_candidates_top_n", "min_bpm", "max_bpm",
                "bpm_resolution", "frame_size", "hop_size", "hpss_margin",
            ],
            vec!["bpm", "bpm_confidence"],
        ),
        (
            tempo("single-resolution tempogram")
                .off("enable_tempogram_multi_resolution")
                .on("enable_tempogram_band_fusion")
                .on("enable_tempogram_mel_novelty")
                .off("enable_onset_consensus")
                .off("enable_bpm_fusion")
                .f("estimate_bpm", Fz::OkNone)
                .f("estimate_bpm_with_guardrails", Fz::OkNone),
            vec![
                "tempogram_band_low_max_hz", "tempogram_band_mid_max_hz",
                "tempogram_band_high_max_hz", "tempogram_band_w_full", "tempogram_band_w_low", "tempogram_band_w_mid",
                "tempogram_band_w_high", "tempogram_band_seed_only", "tempogram_band_support_threshold",
                "tempogram_band_consensus_bonus", "tempogram_novelty_w_spectral", "tempogram_novelty_w_energy",
                "tempogram_novelty_w_hfc", "tempogram_novelty_local_mean_window", "tempogram_novelty_smooth_window",
                "tempogram_mel_n_mels", "tempogram_mel_fmin_hz", "tempogram_mel_fmax_hz", "tempogram_mel_max_filter_bins",
                "tempogram_mel_weight", "tempogram_superflux_max_filter_bins", "min_bpm", "max_bpm",
                "bpm_resolution", "frame_size", "hop_size",
            ],
            vec!["bpm"],
        ),
        (
            tempo("tempogram switches"),
            vec!["enable_tempogram_multi_resolution", "enable_tempogram_percussive_fallback", "enable_tempogram_band_fusion", "enable_tempogram_mel_novelty"],
            vec!["bpm"],
        ),
        (sc("estimator selection"), vec!["force_legacy_bpm"], vec!["bpm"]),
        (tempo("fusion"), vec!["enable_bpm_fusion"], vec!["bpm_confidence"]),
        (
            tempo("candidate list").on("enable_tempogram_multi_resolution"),
            vec!["emit_tempogram_candidates"],
            vec!["metadata.tempogram_candidates"],
        ),
        (
            tempo("candidate list, single resolution").off("enable_tempogram_multi_resolution").on("emit_tempogram_candidates"),
            vec!["tempogram_candidates_top_n"],
            vec!["metadata.tempogram_candidates"],
        ),
        (
            k0("key: plain chroma")
                .off("enable_key_ensemble").off("enable_key_multi_scale").off("enable_key_segment_voting").off("enable_key_hpcp")
                .off("enable_key_log_frequency").off("enable_key_beat_synchronous").on("enable_key_tuning_compensation")
                .on("enable_key_edge_trim").on("enable_key_frame_weighting").on("enable_key_mode_heuristic")
                .on("enable_key_minor_harmonic_bonus").off("enable_key_hpss_harmonic").on("enable_key_harmonic_mask").on("enable_key_stft_override"),
            vec![
                "soft_chroma_mapping", "soft_mapping_sigma", "chroma_sharpening_power", "key_spectrogram_smooth_margin",
                "key_min_tonalness", "key_tonalness_power", "key_energy_power", "key_harmonic_mask_power", "key_stft_frame_size",
                "key_stft_hop_size", "key_template_set", "key_tuning_max_abs_semitones", "key_tuning_frame_step",
                "key_tuning_peak_rel_threshold", "key_edge_trim_fraction", "key_mode_third_ratio_margin",
                "key_mode_flip_min_score_ratio", "key_minor_leading_tone_bonus_weight", "center_frequency",
            ],
            key.clone(),
        ),
        (
            k0("key: plain chroma, smoothing")
                .off("enable_key_hpss_harmonic").off("enable_key_harmonic_mask").on("enable_key_spectrogram_time_smoothing").off("enable_key_beat_synchronous"),
            vec!["key_spectrogram_smooth_margin"],
            key.clone(),
        ),
        (
            k0("key: hpss mask").on("enable_key_hpss_harmonic").off("enable_key_beat_synchronous"),
            vec!["key_hpss_frame_step", "key_hpss_time_margin", "key_hpss_freq_margin", "key_hpss_mask_power"],
            key.clone(),
        ),
        (
            k0("key: hpcp").on("enable_key_hpcp").on("enable_key_hpcp_whitening").on("enable_key_hpcp_bass_blend")
                .off("enable_key_log_frequency").off("enable_key_beat_synchronous"),
            vec![
                "key_hpcp_peaks_per_frame", "key_hpcp_num_harmonics", "key_hpcp_harmonic_decay", "key_hpcp_mag_power",
                "key_hpcp_whitening_smooth_bins", "key_hpcp_bass_fmin_hz", "key_hpcp_bass_fmax_hz", "key_hpcp_bass_weight",
                "soft_mapping_sigma",
            ],
            key.clone(),
        ),
        (
            k0("key: hpcp, no blend").on("enable_key_hpcp").on("enable_key_hpcp_whitening").off("enable_key_hpcp_bass_blend")
                .off("enable_key_log_frequency").off("enable_key_beat_synchronous"),
            vec![
                "key_hpcp_peaks_per_frame", "key_hpcp_num_harmonics", "key_hpcp_harmonic_decay", "key_hpcp_mag_power",
                "key_hpcp_whitening_smooth_bins", "soft_mapping_sigma",
            ],
            key.clone(),
        ),
        (
            k0("key: beat-synchronous").on("enable_key_beat_synchronous").off("enable_key_log_frequency").f("generate_beat_grid", Fz::Label(L_STAGE + 1)),
            vec!["soft_chroma_mapping", "soft_mapping_sigma", "min_bpm", "max_bpm"],
            key.clone(),
        ),
        (
            k0("key: segment voting").on("enable_key_segment_voting").off("enable_key_multi_scale").off("enable_key_ensemble")
                .on("enable_key_mode_heuristic").on("enable_key_minor_harmonic_bonus"),
            vec![
                "key_segment_len_frames", "key_segment_hop_frames", "key_segment_min_clarity", "key_template_set",
                "key_mode_third_ratio_margin", "key_mode_flip_min_score_ratio", "key_minor_leading_tone_bonus_weight",
            ],
            key.clone(),
        ),
        (
            k0("key: multi-scale").on("enable_key_multi_scale").off("enable_key_ensemble").on("enable_key_mode_heuristic")
                .on("enable_key_minor_harmonic_bonus").c("key_multi_scale_weights", Cv::Len(1, 8)),
            vec![
                "key_multi_scale_lengths", "key_multi_scale_hop", "key_multi_scale_min_clarity", "key_multi_scale_weights",
                "key_template_set", "key_mode_third_ratio_margin", "key_mode_flip_min_score_ratio",
                "key_minor_leading_tone_bonus_weight",
            ],
            key.clone(),
        ),
        (
            k0("key: ensemble").on("enable_key_ensemble"),
            vec!["key_ensemble_kk_weight", "key_ensemble_temperley_weight"],
            key.clone(),
        ),
        (
            k0("key: median voting").on("enable_key_median").off("enable_key_ensemble").off("enable_key_multi_scale").off("enable_key_segment_voting"),
            vec!["key_median_segment_length_frames", "key_median_segment_hop_frames", "key_median_min_segments"],
            key.clone(),
        ),
        (
            k0("key: switches"),
            vec![
                "enable_key_spectrogram_time_smoothing", "enable_key_frame_weighting", "enable_key_harmonic_mask",
                "enable_key_hpss_harmonic", "enable_key_stft_override", "enable_key_log_frequency", "enable_key_beat_synchronous",
                "enable_key_multi_scale", "enable_key_ensemble", "enable_key_median", "enable_key_tuning_compensation",
                "enable_key_edge_trim", "enable_key_segment_voting", "enable_key_mode_heuristic", "enable_key_hpcp",
                "enable_key_hpcp_whitening", "enable_key_hpcp_bass_blend", "enable_key_minor_harmonic_bonus",
            ],
            key.clone(),
        ),
    ]
}
pub fn s08(cx: &Cx) -> Report {
    enum J {
        Live(Sc, Vec<&'static str>, Vec<&'static str>),
        Fwd,
    }
    let mut jobs: Vec<J> = vec![J::Fwd];
    jobs.extend(live_modes().into_iter().map(|(a, b, c)| J::Live(a, b, c)));
    let mut rep = all(par(jobs, |j| match j {
        J::Live(s, want, outs) => {
            let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
            let mut r = o.rep.clone();
            let res = cx.result(&o);
            let mut l = Lab::NONE;
            for n in &outs {
                match res.get(*n) {
                    Some(v) => l = l.or(v.all()),
                    None => r.undecided.push(format!("no output {}", n)),
                }
            }
            for w in want {
                let Some(i) = cx.fix(w) else {
                    continue;
                };
                r.ob(
                    l.has(i),
                    &format!("{}:{}", s.name, w),
                    &format!("[{}] setting `{}` cannot influence {}", s.name, w, outs.join("/")),
                    "src/lib.rs analyze_audio",
                    || format!("[{}] {} reaches {}", s.name, w, outs.join("/")),
                );
            }
            r
        }
        J::Fwd => {
            let mut s = sc("forwarding").off("enable_key_beat_synchronous");
            s.toks = true;
            // the stages' own results do not matter here
            for (f, _, _) in FORWARD {
                if !s.watch.iter().any(|x| x == f) {
                    s.watch.push(f.to_string());
                }
            }
            let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
            let mut r = o.rep.clone();
            for (f, path, set) in FORWARD {
                let (Some(fi), Some(i), Some(w)) = (cx.fun(f), cx.fix(set), o.watched.get(*f)) else { continue };
                let mut parts = path.split('.');
                let p0 = parts.next().unwrap();
                let Some(ix) = cx.params(fi).iter().position(|n| n == p0) else { continue };
                let mut v = w[ix].clone();
                let mut t = cx.p.fns[fi].locals[ix + 1].t;
                let mut ok = true;
                for q in parts {
                    let fs = cx.fields(t);
                    match (fs.iter().position(|x| x.0 == q), &v.k) {
                        (Some(k), K::S(xs)) => {
                            t = fs[k].1;
                            v = xs[k].clone();
                        }
                        _ => ok = false,
                    }
                }
                if !ok {
                    continue;
                }
                // only calls made with this very setting, never another one or a constant
                let multi = v.tok & !(1u128 << i);
                r.ob(
                    multi == 0,
                    &format!("forward:{}:{}", f, path),
                    &format!("`{}` does not always receive setting `{}` as `{}`", f, set, path),
                    &cx.p.fns[fi].at,
                    || format!("{}({}) = {}", f, path, set),
                );
            }
            r
        }
    }));
    rep.rule = "dependence + forwarding".into();
    rep
}

// ---------------------------------------------------------------- S09
/// stages whose failure may fail the analysis
const FATAL: &[&str] = &["normalize", "detect_and_trim", "detect_energy_flux_onsets", "compute_stft"];
pub fn fatal_ok(s: Sc) -> Sc {
    s.f("normalize", Fz::Ok)
        .f("detect_and_trim", Fz::Ret(trim_ok))
        .f("detect_energy_flux_onsets", Fz::Ok)
        .f("compute_stft", Fz::Ret(nonempty_ok))
        .a("samples", Av::Len(1, LMAX))
        .a("sample_rate", Av::I(1, u32::MAX as i128))
}
pub fn trim_ok(it: &Interp, t: usize) -> V {
    let v = only(it.top_of(t), 0);
    if let K::E(e) = &v.k {
        if let K::S(x) = &e.vs[&0][0].k {
            let mut y = (**x).clone();
            if let K::C(c) = &y[0].k {
                y[0] = V::c(c.el.clone(), 1, LMAX);
            }
            return V::e(vec![(0, vec![V::s(y)])]);
        }
    }
    v
}
pub fn s09(cx: &Cx) -> Report {
    let mut jobs = vec![fatal_ok(sc("every optional stage may fail"))];
    // each optional stage certainly failing, one at a time
    for f in OPTIONAL {
        jobs.push(fatal_ok(sc(&format!("{} fails", f))).f(f, Fz::Err));
    }
    all(par(jobs, |s| {
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        for f in FATAL {
            if cx.fun(f).is_none() {
                r.undecided.push(format!("no function {}", f));
            }
        }
        let v = cx.err_variants(&o);
        r.ob(
            v.len() == 1 && v.contains("Ok"),
            &s.name,
            &format!("[{}] the analysis can return {:?} although preprocessing succeeded", s.name, v),
            &fail_site(cx, &s),
            || format!("[{}] result is always Ok", s.name),
        );
        r
    }))
}
pub const OPTIONAL: &[&str] = &[
    "detect_spectral_flux_onsets",
    "detect_hfc_onsets",
    "detect_hpss_onsets",
    "hpss_decompose",
    "vote_onsets",
    "estimate_bpm",
    "estimate_bpm_with_guardrails",
    "estimate_bpm_tempogram",
    "estimate_bpm_tempogram_band_fusion",
    "estimate_bpm_tempogram_with_candidates",
    "estimate_bpm_tempogram_with_candidates_band_fusion",
    "multi_resolution_tempogram_from_samples",
    "generate_beat_grid",
    "harmonic_spectrogram_hpss_median_mask",
    "harmonic_spectrogram_time_mask",
    "smooth_spectrogram_time",
    "convert_linear_to_log_frequency_spectrogram",
    "estimate_tuning_offset_semitones_from_spectrogram",
    "extract_beat_synchronous_chroma",
    "extract_chroma_from_log_frequency_spectrogram",
    "extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned",
    "extract_hpcp_from_spectrogram_with_options_and_energy_tuned",
    "extract_chroma_from_spectrogram_with_options_and_energy_tuned",
    "extract_chroma_from_spectrogram_with_options_and_energy",
    "detect_key_ensemble",
    "detect_key_multi_scale",
    "detect_key_weighted",
    "detect_key_weighted_mode_heuristic",
];
fn fail_site(cx: &Cx, s: &Sc) -> String {
    // the stage named in the scenario, else the entry point
    let n = s.name.strip_suffix(" fails").unwrap_or(MAIN);
    cx.fun(n).map(|i| cx.p.fns[i].at.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------- S10
fn isz(v: &V) -> bool {
    matches!(v.k, K::F(f) if f.lo == 0.0 && f.hi == 0.0 && !f.nan)
}
fn len(v: &V) -> Option<(i128, i128)> {
    match &v.k {
        K::C(c) => Some((c.lo, c.hi)),
        _ => None,
    }
}
pub fn s10(cx: &Cx) -> Report {
    let tempo_fail = |mut s: Sc, none: bool| {
        for f in TEMPO_STAGES {
            s = s.f(f, if f.contains("tempogram") { Fz::Err } else if none { Fz::OkNone } else { Fz::Err });
        }
        s
    };
    let keyf = |mut s: Sc, pre: &str| {
        for f in OPTIONAL {
            if f.starts_with(pre) {
                s = s.f(f, Fz::Err);
            }
        }
        s
    };
    let base = |n: &str| fatal_ok(sc(n));
    let jobs = vec![
        (tempo_fail(base("no tempo (errors)"), false), 0),
        (tempo_fail(base("no tempo (nothing found)"), true), 0),
        (tempo_fail(base("no tempo, legacy forced").on("force_legacy_bpm"), true), 0),
        (tempo_fail(base("no tempo, fusion").on("enable_bpm_fusion").off("force_legacy_bpm"), true), 0),
        (base("beat tracking fails").f("generate_beat_grid", Fz::Err), 1),
        (keyf(base("key detection fails"), "detect_key"), 2),
        (keyf(base("chroma extraction fails"), "extract_"), 2),
        (
            base("audio shorter than a frame")
                .f("detect_and_trim", Fz::Ret(|it, t| {
                    let v = trim_ok(it, t);
                    if let K::E(e) = &v.k {
                        if let K::S(x) = &e.vs[&0][0].k {
                            let mut y = (**x).clone();
                            if let K::C(c) = &y[0].k {
                                y[0] = V::c(c.el.clone(), 1, 100);
                            }
                            return V::e(vec![(0, vec![V::s(y)])]);
                        }
                    }
                    v
                }))
                .on("enable_silence_trimming")
                .c("frame_size", Cv::I(2048, 2048)),
            2,
        ),
    ];
    all(par(jobs, |(s, kind)| {
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        let res: BTreeMap<String, V> = cx.result(&o);
        let g = |n: &str| res.get(n).cloned().unwrap_or(V::top());
        let at = "src/lib.rs analyze_audio";
        if res.is_empty() {
            // every path fails: S09 reports that
            r.undecided.push(format!("{}: no success path", s.name));
            return r;
        }
        let nm = s.name.clone();
        let mut zero = |r: &mut Report, n: &str| {
            let v = g(n);
            r.ob(isz(&v), &format!("{}:{}", nm, n), &format!("[{}] `{}` is {:?}, not zero", nm, n, v.k_only()), at, || format!("[{}] {} = 0", nm, n));
        };
        let warn = g("metadata.confidence_warnings");
        let flags = g("metadata.flags");
        match kind {
            0 => {
                zero(&mut r, "bpm");
                zero(&mut r, "bpm_confidence");
                zero(&mut r, "grid_stability");
            }
            1 => zero(&mut r, "grid_stability"),
            _ => {
                zero(&mut r, "key_confidence");
                zero(&mut r, "key_clarity");
                let k = g("key");
                let ok = match &k.k {
                    K::E(e) => e.vs.len() == 1 && e.vs.get(&0).map_or(false, |x| x.len() == 1 && x[0].cst() == Some(0)),
                    _ => false,
                };
                r.ob(ok, &format!("{}:key", nm), &format!("[{}] the key is not always the default C major", nm), at, || format!("[{}] key = C major", nm));
                let wt = cx
                    .adt("AnalysisFlag")
                    .and_then(|t| cx.p.variants(t))
                    .and_then(|v| v.iter().position(|x| x.n == "WeakTonality"))
                    .unwrap_or(usize::MAX) as u32;
                let ok = match &flags.k {
                    K::C(c) => c.lo >= 1 && c.must & (1 << wt.min(63)) != 0,
                    _ => false,
                };
                r.ob(ok, &format!("{}:flag", nm), &format!("[{}] the weak-tonality flag is not always set", nm), at, || format!("[{}] WeakTonality is set", nm));
            }
        }
        if kind < 2 {
            for f in ["beat_grid.beats", "beat_grid.downbeats", "beat_grid.bars"] {
                let v = g(f);
                let l = len(&v);
                r.ob(l.map_or(false, |x| x.1 == 0), &format!("{}:{}", nm, f), &format!("[{}] `{}` is not always empty", nm, f), at, || format!("[{}] {} is empty", nm, f));
            }
        }
        r.ob(
            len(&warn).map_or(false, |x| x.0 >= 1),
            &format!("{}:warning", nm),
            &format!("[{}] no warning is guaranteed", nm),
            at,
            || format!("[{}] at least one warning", nm),
        );
        r
    }))
}

