PROPS = {
"B01": dict(groups=[dict(file="b01_buffer.cpp", src=["src/audio_buffer.cpp"], entries=[
    dict(name="h_layout", reach=["layout"]), dict(name="h_traverse", reach=["traverse"]), dict(name="h_iter_seq", reach=["seq"]), dict(name="h_iter_inter", reach=["inter"]),
    dict(name="h_build", reach=["build"]), dict(name="h_static", reach=["static"]), dict(name="h_big", reach=["big"]), dict(name="h_assign", reach=["assign"])])]),
}
PROPS["B02"] = dict(groups=[dict(file="b02_ring.cpp", entries=[dict(name=n, reach=[n[2:]]) for n in ("h_ring", "h_walk", "h_size", "h_big", "h_two")])])
PROPS["C01"] = dict(groups=[dict(file="c01_convert.cpp", src=["src/audio_buffer.cpp"], entries=
    [dict(name="h_i16_%d" % k, reach=["rt"], cost=5, opts=["--qms=200000"]) for k in range(16)] +
    [dict(name="h_" + n, reach=["rt"], cost=9, opts=["--qms=200000"]) for n in ("i8", "u8", "u16")] + [dict(name="h_enc_" + n, reach=["enc"]) for n in ("i16", "u16", "i8", "u8")] +
    [dict(name="h_mono_" + n, reach=["mono"], opts=["--qms=200000"], cost=9) for n in ("i8", )] + [dict(name="h_dmono_" + n, reach=["dmono"], opts=["--qms=200000"]) for n in ("i16", "u16", "i8", "u8")] +
    [dict(name="h_ends", reach=["ends"]), dict(name="h_float", reach=["float"])])])
def ents(*ns, **kw): return [dict(name="h_" + n, reach=[n], **kw) for n in ns]
WAV = ["src/io/wav.cpp", "src/io/mstream.cpp", "src/audio_buffer.cpp", "src/source_module.cpp", "src/base_module.cpp", "src/meta_audio.cpp", "src/chrono.cpp"]
PROPS["C02"] = dict(groups=[dict(file="c02_bytes.cpp", src=["src/audio_buffer.cpp"], entries=ents("codec", "iter", "squish", "big", "mixed"))])
PROPS["M01"] = dict(groups=[dict(file="m01_stream.cpp", src=["src/io/mstream.cpp"], entries=ents("out", "in", "state", "big", "straddle"))])
PROPS["W01"] = dict(groups=[dict(file="w01_headers.cpp", src=WAV, entries=ents("chunk", "riff", "format", "unknown", "config", "big"))])
PROPS["W02"] = dict(groups=[dict(file="w02_writer.cpp", src=WAV, entries=ents("w16", "w8", "auto", "big", "fields", "two"))])
PROPS["W03"] = dict(groups=[dict(file="w03_reader.cpp", src=WAV, entries=ents("plain", "chunks", "split", "large", "resize", "source", "fields", "long", "extension", "two", "edge", "big", "handover"))])
PROPS["W04"] = dict(groups=[dict(file="w04_trip.cpp", src=WAV, entries=ents("trip", "long", "big"))])
PROPS["W05"] = dict(groups=[dict(file="w05_hostile.cpp", src=WAV, entries=ents("short", "ids", "sizes", "unknown", "format", "claim"))])
PROPS["K01"] = dict(groups=[dict(file="k01_conv.cpp", src=["src/dsp/conv.cpp", "src/audio_buffer.cpp"], tdefs=["-DKN=7", "-DKK=6"], entries=ents("raw", "iter", "buffer", "channel", "impulse", "big", "mixed"))])
PROPS["F01"] = dict(groups=[dict(file="f01_fourier.cpp", src=["src/dsp/ft.cpp"], tdefs=["-DLOGN=5"], entries=ents("dft", "idft", "fft", "ifft", "inplace", "real", "basis", "big", "mixed"))])
PROPS["F02"] = dict(groups=[dict(file="f02_util.cpp", src=["src/dsp/util.cpp"], entries=ents("reverse", "multiply", "pack", "sinc", "big", "mixed", "sizes"))])
PROPS["N01"] = dict(groups=[dict(file="n01_kernels.cpp", src=["src/dsp/util.cpp", "src/dsp/window.cpp", "src/dsp/kernel.cpp"], entries=ents("windows", "spectral", "sinckernel", "mixed", "big"))])
PROPS["I01"] = dict(groups=[dict(file="i01_iir.cpp", src=[], tdefs=["-DIN=7"], entries=ents("filter", "long", "resize", "single", "pole", "response", "big", "retune", "two", "many", "wrap"))])
MOD = ["src/audio_buffer.cpp", "src/base_module.cpp", "src/source_module.cpp", "src/sink_module.cpp"]
PROPS["S01"] = dict(groups=[dict(file="s01_filter.cpp", src=MOD + ["src/dsp/conv.cpp", "src/dsp/util.cpp", "src/dsp/window.cpp"], entries=ents("stream", "restart", "sinc", "long", "big", "settings", "again", "two", "wide", "forget"))])
PROPS["A01"] = dict(groups=[dict(file="a01_chain.cpp", src=MOD + ["src/meta_audio.cpp", "src/chrono.cpp"], entries=ents("process", "info", "state", "late", "static", "period", "reserve", "big", "two", "handed"))])
PROPS["X01"] = dict(groups=[dict(file="x01_mixer.cpp", src=MOD + ["src/module_mixer.cpp"], entries=ents("down", "up", "both", "meta", "info", "big", "many", "two", "shapes"))])
PROPS["U01"] = dict(groups=[dict(file="u01_meta.cpp", src=MOD + ["src/meta_audio.cpp", "src/chrono.cpp"], entries=ents("uniform", "repeat", "constant", "big", "shrink", "two", "other", "stale", "renewed"))])
PROPS["T01"] = dict(groups=[dict(file="t01_time.cpp", src=MOD + ["src/meta_audio.cpp", "src/chrono.cpp"], entries=ents("timer", "counter", "latency", "clock", "rates", "two", "odd"))])
PROPS["G01"] = dict(groups=[dict(file="g01_render.cpp", src=WAV + ["src/sink_module.cpp", "src/module_mixer.cpp", "src/module_param.cpp", "src/fund_oscillator.cpp", "src/dsp/conv.cpp", "src/dsp/util.cpp", "src/dsp/window.cpp", "src/envelope.cpp", "src/utils.cpp", "src/base_oscillator.cpp"], entries=ents("render", "uniform", "file", "param"))])
PROPS["Q01"] = dict(groups=[dict(file="q01_misc.cpp", src=["src/audio_buffer.cpp"], entries=ents("dot", "collection", "big"))])
PROPS["O01"] = dict(groups=[dict(file="o01_osc.cpp", src=MOD + ["src/meta_audio.cpp", "src/chrono.cpp", "src/module_param.cpp", "src/base_oscillator.cpp", "src/fund_oscillator.cpp"], entries=[dict(name="h_" + n, reach=["plain"]) for n in ("sine", "square", "saw", "triangle")] + [dict(name="h_m" + n, reach=["mod"]) for n in ("sine", "square", "saw", "triangle")] + ents("split", "big", "two", "sweep", "long"))])
PROPS["R01"] = dict(groups=[dict(file="r01_param.cpp", src=MOD + ["src/meta_audio.cpp", "src/chrono.cpp", "src/module_param.cpp"], entries=ents("value", "chain", "owner", "big", "two"))])
ENV = MOD + ["src/meta_audio.cpp", "src/chrono.cpp", "src/envelope.cpp", "src/utils.cpp"]
PROPS["E01"] = dict(groups=[dict(file="e01_env.cpp", src=ENV, entries=ents("constant", "setvalue", "linear", "exponential", "duration", "base", "big", "two", "late", "wide"))])
PROPS["E02"] = dict(groups=[dict(file="e02_chain.cpp", src=ENV, entries=[dict(name="h_" + n, reach=[n.split("_")[0]]) for n in ("two_held", "two_jump", "later_held", "later_jump", "one", "ramps", "empty", "manual", "restart", "offset", "many", "midway", "early")])])
PROPS["E03"] = dict(groups=[dict(file="e03_adsr.cpp", src=ENV, entries=ents("adsr", "later", "again", "twice", "side", "rounds"))])
PAR = MOD
PROPS["P01"] = dict(groups=[dict(file="p01_parallel.cpp", src=PAR, threads=True, entries=[dict(name="h_" + n, reach=[n], opts=["--races", "--preempt=%d" % q], topts=["--races", "--preempt=%d" % t]) for n, q, t in (("restart", 5, 6), ("stale", 4, 5), ("nested", 2, 3), ("limit", 5, 6), ("lower", 3, 4), ("stream", 5, 6), ("state", 5, 7), ("destroy", 6, 9))])])
PROPS["L01"] = dict(groups=[dict(file="l01_alsa.cpp", src=MOD + ["src/io/alsa_module.cpp"], entries=ents("write", "all", "start", "info", "chain", "unset", "big"))])
PROPS["M02"] = dict(groups=[dict(file="m02_files.cpp", src=WAV, shim=True, entries=ents("read", "write", "full", "failing", "wave", "big"))])
for _p in PROPS.values():   # long concrete stretches
    for _g in _p["groups"]:
        for _e in _g["entries"]:
            if _e["name"] in ("h_big", "h_wrap"): _e["opts"] = _e.get("opts", []) + ["--maxsteps=80000000"]
