"""What each check runs.  (quick, thorough) sizes; every random choice comes from VERIF_SEED."""

def sz(tier, q, t): return t if tier == "thorough" else q

def T(kind, spec, n, **kw):
    d = dict(type="trace", kind=kind, spec=spec, n=n); d.update(kw); return d

def M(spec, cfg, **kw):
    d = dict(type="model", spec=spec, cfg=cfg); d.update(kw); return d

COMMON = ["TLC evaluates the specification correctly", "the harness records what the public API returned"]

DEC = "samples beyond 2^26 (2^18 with the weighted predictor), XYB in lossless frames, edge preserving filters leave the modelled range"

CHECKS = {
 "C01": dict(level="model_checking", assumptions=COMMON + ["behaviour after a failed consuming call is only constrained once the reader is repositioned"],
   jobs=lambda tier: [T("C01", "BitReader", sz(tier, 20000, 60000), rounds=sz(tier, 1, 20))]),
 "C02": dict(level="model_checking", assumptions=COMMON + ["ICC varints above 2^31-1 do not fit the reader's result type and are only required not to panic"],
   jobs=lambda tier: [T("C02", "BitReader", sz(tier, 20000, 60000), rounds=sz(tier, 1, 20))]),
 "C06": dict(level="model_checking", assumptions=COMMON + ["symbol values of 2^18 and more leave the modelled range"],
   jobs=lambda tier: [T("C06", "EntropyStream", sz(tier, 6000, 30000), rounds=sz(tier, 1, 10))]),
 "C04": dict(level="model_checking", assumptions=COMMON + ["XYB or unknown colour spaces without a profile and dim_shift above 3 leave the modelled range"],
   jobs=lambda tier: [T("C04", "ImageHeaderTrace", sz(tier, 12000, 60000), rounds=sz(tier, 1, 10))]),
 "C05": dict(level="model_checking", assumptions=COMMON + ["tables of more than 400 entries, flags of 2^31 and more, very small modular sigmas and negative smoothing weights leave the modelled range"],
   jobs=lambda tier: [T("C05", "FrameHeaderTrace", sz(tier, 12000, 60000), rounds=sz(tier, 1, 10))]),
 "C07": dict(level="model_checking", assumptions=COMMON + [DEC],
   jobs=lambda tier: [T("C07", "Decode", sz(tier, 3000, 12000), rounds=sz(tier, 1, 10))]),
 "C08": dict(level="model_checking", assumptions=COMMON + [DEC, "implicit palette colours of a fourth channel, palettes of images deeper than 16 bits leave the modelled range"],
   jobs=lambda tier: [T("C08", "Decode", sz(tier, 3000, 12000), rounds=sz(tier, 1, 10))]),
 "C09": dict(level="model_checking", assumptions=COMMON + [DEC],
   jobs=lambda tier: [T("C09", "Decode", sz(tier, 2500, 10000), rounds=sz(tier, 1, 10))]),
 "C10": dict(level="model_checking", assumptions=COMMON + [DEC, "blended samples are compared in fixed point (1/64 of a sample step); colour blended by an alpha channel with another mode or source, alpha blending by a channel that is no alpha, and frames saved for patches as sources are left open"],
   jobs=lambda tier: [T("C10", "Decode", sz(tier, 4000, 15000), rounds=sz(tier, 1, 10))]),
 "C11": dict(level="model_checking", assumptions=COMMON + [DEC],
   jobs=lambda tier: [T("C11", "Decode", sz(tier, 4000, 15000), rounds=sz(tier, 1, 10))]),
 "C03": dict(level="model_checking", assumptions=COMMON + [DEC, "codestream parts out of order, several codestreams and level boxes other than 5 and 10 are left open"],
   jobs=lambda tier: [T("C03", "Decode", sz(tier, 6000, 20000), rounds=sz(tier, 1, 10))]),
 "C18": dict(level="model_checking", assumptions=COMMON + [DEC],
   jobs=lambda tier: [T("C18", "Decode", sz(tier, 5000, 20000), rounds=sz(tier, 1, 10))]),
 "C19": dict(level="model_checking", assumptions=COMMON + ["values are compared within a bound on the error of the specification's fixed point arithmetic", "depths other than 8 bits, more than 4 LF groups, several passes, LF frames of another size or filtered over a border inside a cell, all three colours subsampled alike, large blocks, enlarging or smoothing of low frequencies in subsampled frames, custom weights of the edge-preserving filter leave the modelled range; so do values far outside the range of samples", "blocks over colour tiles of different factors, and smoothed rows and columns at a border inside a cell of 8x8 samples, are left open"],
   jobs=lambda tier: [T("C19", "Decode", sz(tier, 1200, 5000), rounds=sz(tier, 1, 8))]),
 "C20": dict(level="model_checking", assumptions=COMMON + ["values are compared within a bound on the error of the specification's fixed point arithmetic", "weights or samples whose weighted sums exceed 2^17 steps leave the modelled range", "between the planes of a lossy frame and their padding the samples next to the border are left open"],
   jobs=lambda tier: [T("C20", "Decode", sz(tier, 2000, 8000), rounds=sz(tier, 1, 8))]),
 "C21": dict(level="model_checking", assumptions=COMMON + ["values are compared within a bound on the error of the specification's fixed point arithmetic", "depths of more than 8 bits, grey images with the edge-preserving filter and custom weights of this filter leave the modelled range"],
   jobs=lambda tier: [T("C21", "Decode", sz(tier, 4000, 12000), rounds=sz(tier, 1, 8))]),
 "C22": dict(level="model_checking", assumptions=COMMON + ["values are compared within a bound on the error of the specification's fixed point arithmetic", "of primaries and white points the named ones are judged, named or spelled out; intensities below 64, opsin entries of 16 and more and biases of a quarter and more leave the modelled range"],
   jobs=lambda tier: [T("C22", "Decode", sz(tier, 1600, 8000), rounds=sz(tier, 1, 8))]),
 "C16": dict(level="model_checking", assumptions=COMMON + ["numbers of 2^30 and more and tags at or beyond 500,000,000 leave the modelled range; bytes or commands left over may be accepted or refused"],
   jobs=lambda tier: [T("C16", "IccTrace", sz(tier, 16000, 60000), rounds=sz(tier, 1, 10))]),
 "C12": dict(level="model_checking", assumptions=COMMON + ["the expected values of colour conversions other than linear light to sRGB are left open", "samples that are no number, and colour under an opacity of zero or above one, are left open"],
   jobs=lambda tier: [T("C12", "Render", sz(tier, 8000, 20000), rounds=sz(tier, 1, 10))]),
 "C15": dict(level="model_checking", assumptions=COMMON + ["headers outside the header model (C04) are only compared among the answers"],
   jobs=lambda tier: [T("C15", "Queries", sz(tier, 8000, 20000), rounds=sz(tier, 1, 10))]),
 "C17": dict(level="model_checking", assumptions=COMMON + ["a matrix is returned once and not used afterwards", "samples and maxima of 2^20 and more are only required to be clamped", "exact halves may round either way"],
   jobs=lambda tier: [T("C17", "Buffers", sz(tier, 3500, 20000), rounds=sz(tier, 1, 10)),
                      T("C17race", "Buffers", sz(tier, 250, 2000), rounds=sz(tier, 1, 4), race=True)]),
 "C13": dict(level="model_checking", assumptions=COMMON + ["schedules are those the Go runtime produces under different processor counts, worker limits and company, and with the race detector; float images are compared bit by bit"],
   jobs=lambda tier: [M("Workers", "WorkersDeep" if tier == "thorough" else "Workers"),
                      T("C13", "History", sz(tier, 260, 1500), rounds=sz(tier, 1, 6)),
                      T("C13race", "History", sz(tier, 50, 300), rounds=sz(tier, 1, 4), race=True)]),
 "C14": dict(level="model_checking", assumptions=COMMON + ["a cut or failing read that leaves all needed bytes readable may or may not be reported", "files outside the lossless model are compared with the decode of the undamaged file"],
   jobs=lambda tier: [M("Workers", "WorkersDeep" if tier == "thorough" else "Workers"),
                      T("C14", "Faults", sz(tier, 350, 2000), rounds=sz(tier, 1, 6)),
                      T("C14cuts", "Decode", sz(tier, 2500, 10000), rounds=sz(tier, 1, 6))]),
}
