"""The recipe of every check."""
import os


def c01(ctx):
    ctx.model("RenderMC", "Render_sync.cfg", workers=8)
    if ctx.thorough:
        ctx.model("RenderMC", "Render_sync3.cfg", workers=8)
    g = ctx.gen("RenderMC", "Render_sync_gen.cfg")
    ctx.trace("render", "RenderTrace", gen=g, genmax=ctx.pick(4000, 0), n=ctx.pick(3000, 40000), shards=8,
              need=("flush", "tsize", "garble", "edit"))


def c02(ctx):
    ctx.model("RenderMC", "Render_fault.cfg", workers=8)
    g = ctx.gen("RenderMC", "Render_fault_gen.cfg")
    ctx.trace("renderfault", "RenderTrace", gen=g, genmax=ctx.pick(6000, 60000), n=ctx.pick(3000, 40000), shards=8,
              need=("flush", "tsize", "garble", "exit"))


def c04(ctx):
    ctx.model("EmuMC", ctx.pick("Emu_small.cfg", "Emu_deep.cfg"), workers=8)
    g = ctx.gen("EmuMC", "Emu_gen.cfg")
    ctx.trace("emu", "EmuTrace", gen=g, n=ctx.pick(3000, 40000), shards=8, need=("write", "sgr", "to", "clear", "resize"))


def c05(ctx):
    g = ctx.gen("DecoderMC", "Decoder_wait.cfg")
    ctx.trace("buffer", "BufferTrace", gen=g, n=ctx.pick(2500, 30000), shards=8, need=("process", "skip", "writeto", "discard"))
    g = ctx.gen("DecoderMC", "Decoder_long.cfg")
    ctx.trace("buffer", "BufferTrace", gen=g, genmax=ctx.pick(4000, 0), shards=8)
    g = ctx.gen("DecoderMC", "Decoder_keys.cfg")
    ctx.trace("input", "InputTrace", gen=g, n=0, shards=8, need=("drain",))


def c06(ctx):
    g = ctx.gen("DecoderMC", "Decoder_keys.cfg")
    ctx.trace("input", "InputTrace", gen=g, genmax=500, n=ctx.pick(1500, 20000), shards=8,
              need=("readany", "readmore", "drain", "some", "notify", "exit", "ext"))


def c10(ctx):
    ctx.model("SgrMC", "Sgr_flags.cfg", workers=8)
    if ctx.thorough:
        ctx.model("SgrMC", "Sgr_all.cfg", workers=8)
    g = ctx.gen("SgrMC", "Sgr_pairs.cfg")
    ctx.trace("sgr", "SgrTrace", gen=g, n=ctx.pick(20000, 300000), shards=8, need=("pair", "enc", "dec", "color", "rgba", "junk"))


def c11(ctx):
    ctx.model("CursorMC", ctx.pick("Cursor_small.cfg", "Cursor_deep.cfg"), workers=8)
    g = ctx.gen("CursorMC", "Cursor_gen.cfg")
    ctx.trace("cursor", "CursorTrace", gen=g, n=ctx.pick(4000, 60000), shards=8,
              need=("to", "sgr", "show", "hide", "apply", "write", "flush", "drop"))


def c19(ctx):
    ctx.model("EscapeMC", ctx.pick("Escape_small.cfg", "Escape_deep.cfg"), workers=8)
    g = ctx.gen("EscapeMC", "Escape_gen.cfg")
    ctx.trace("esc", "EscapeTrace", gen=g, genmax=ctx.pick(3000, 0), n=ctx.pick(4000, 60000), shards=8,
              need=("esc", "new", "with", "wseq", "mode", "addmode", "mouse", "mstate", "names", "desc", "num", "point"))


def c20(ctx):
    ctx.model("ColorsMC", "Colors_small.cfg", workers=8)
    g = ctx.gen("ColorsMC", ctx.pick("Colors_gen.cfg", "Colors_deep.cfg"))
    ctx.trace("colors", "ColorsTrace", gen=g, genmax=ctx.pick(3000, 40000), n=ctx.pick(4000, 60000), shards=8,
              need=("def", "compose", "convert", "index"))


def c12(ctx):
    ctx.model("GridMC", ctx.pick("Grid_small.cfg", "Grid_deep.cfg"), workers=8)
    g = ctx.gen("GridMC", "Grid_gen.cfg")
    ctx.trace("grid", "GridTrace", gen=g, genmax=ctx.pick(3000, 40000), n=ctx.pick(3000, 40000), shards=8,
              need=("base", "sub", "draw", "clear", "off", "eq", "resize"))


def c22(ctx):
    ctx.model("BitmapMC", ctx.pick("Bitmap_small.cfg", "Bitmap_deep.cfg"), workers=8)
    g = ctx.gen("BitmapMC", "Bitmap_gen.cfg")
    ctx.trace("bitmap", "BitmapTrace", gen=g, genmax=ctx.pick(3000, 30000), n=ctx.pick(5000, 60000), shards=8,
              need=("load", "resize", "sub", "get", "set", "rune", "size", "draw", "write", "parse"))


def c23(ctx):
    ctx.model("LogViewMC", ctx.pick("LogView_small.cfg", "LogView_deep.cfg"), workers=8)
    ctx.model("HUDMC", ctx.pick("HUD_small.cfg", "HUD_deep.cfg"), workers=8)
    g = ctx.gen("LogViewMC", "LogView_gen.cfg")
    ctx.trace("logview", "LogViewTrace", gen=g, n=ctx.pick(1500, 60000), shards=8, need=("log", "read", "upd"))
    g = ctx.gen("HUDMC", "HUD_gen.cfg")
    ctx.trace("hud", "HUDTrace", gen=g, genmax=ctx.pick(1200, 0), n=ctx.pick(500, 20000), shards=8, need=("frame",))


def c24(ctx):
    ctx.model("GeomMC", ctx.pick("Geom_small.cfg", "Geom_deep.cfg"), workers=8)
    g = ctx.gen("GeomMC", "Geom_gen.cfg")
    ctx.trace("geom", "GeomTrace", gen=g, n=ctx.pick(3000, 60000), shards=8,
              need=("pair", "point", "pt", "rect", "fromp", "fromr", "top", "tor"))


def c25(ctx):
    ctx.model("ConfigMC", ctx.pick("Config_small.cfg", "Config_deep.cfg"), workers=8)
    g = ctx.gen("ConfigMC", "Config_gen.cfg")
    ctx.trace("config", "ConfigTrace", gen=g, genmax=ctx.pick(1500, 0), n=ctx.pick(600, 12000), shards=8,
              need=("merge", "flags", "new", "log", "in", "ran", "busy", "scrub", "files"))


def c26(ctx):
    ctx.model("Telemetry", ctx.pick("Telemetry_small.cfg", "Telemetry_deep.cfg"), workers=8)
    ctx.trace("telemetry", "TelemetryTrace", n=ctx.pick(120, 1600), shards=8, race=True,
              need=("frame", "set", "held", "ran", "logged"))


def c27(ctx):
    ctx.model("TerminfoMC", ctx.pick("Terminfo_small.cfg", "Terminfo_deep.cfg"), workers=8)
    ctx.trace("terminfo", "TerminfoTrace", n=ctx.pick(2000, 60000), shards=8, need=("read", "path", "put", "load"))


def c28(ctx):
    ctx.model("FilterMC", ctx.pick("Filter_small.cfg", "Filter_deep.cfg"), workers=8)
    g = ctx.gen("FilterMC", "Filter_gen.cfg")
    env = dict(os.environ, VH_TO24BIT=ctx.work.build_command("to24bit"), VH_STRIP=ctx.work.build_command("decode"))
    ctx.trace("filter", "FilterTrace", gen=g, genmax=ctx.pick(2500, 40000), n=ctx.pick(3000, 40000), shards=8, env=env,
              need=("to24bit", "strip"))


def c07(ctx):
    ctx.model("RecordingMC", ctx.pick("Recording_small.cfg", "Recording_deep.cfg"), workers=8)
    g = ctx.gen("RecordingMC", "Recording_gen.cfg")
    ctx.trace("record", "RecordTrace", gen=g, genmax=ctx.pick(2000, 0), n=ctx.pick(3000, 50000), shards=8,
              need=("feed", "readany", "readmore", "record", "message", "replay", "close"))


def c08(ctx):
    ctx.model("LifecycleMC", ctx.pick("Lifecycle_small.cfg", "Lifecycle_deep.cfg"), workers=8)
    g = ctx.gen("LifecycleMC", "Lifecycle_gen.cfg")
    ctx.trace("term", "TermTrace", gen=g, n=ctx.pick(3000, 60000), shards=8, need=("life", "add", "mk", "run"))


def c13(ctx):
    ctx.model("EventsMC", ctx.pick("Events_small.cfg", "Events_deep.cfg"), workers=8)
    g = ctx.gen("EventsMC", "Events_gen.cfg")
    ctx.trace("events", "EventsTrace", gen=g, genmax=ctx.pick(4000, 0), n=ctx.pick(4000, 60000), shards=8,
              need=("bytes", "input", "empty", "term", "count", "press", "outside", "scroll", "moves", "last"))


def c14(ctx):
    ctx.model("EditLineMC", ctx.pick("EditLine_small.cfg", "EditLine_deep.cfg"), workers=8)
    g = ctx.gen("EditLineMC", "EditLine_gen.cfg")
    ctx.trace("editline", "EditLineTrace", gen=g, genmax=ctx.pick(3000, 0), n=ctx.pick(3000, 60000), shards=8,
              need=("upd", "again"))


def c15(ctx):
    ctx.model("LogSink", "LogSink_small.cfg", workers=8)
    ctx.model("LogSink", "LogSink_fail.cfg", workers=8)
    if ctx.thorough:
        ctx.model("LogSink", "LogSink_deep.cfg", workers=8)
        ctx.model("LogSink", "LogSink_deepfail.cfg", workers=8)
    g = ctx.gen("LogSink", "LogSink_gen.cfg")
    ctx.trace("logsink", "LogSinkTrace", gen=g, n=ctx.pick(4000, 60000), shards=8,
              need=("write", "start", "stop", "notify", "settle", "setfile", "read", "error"))
    ctx.model("LogConc", ctx.pick("LogConc_small.cfg", "LogConc_deep.cfg"), workers=8)
    ctx.trace("logconc", "LogConcTrace", n=ctx.pick(600, 12000), shards=8, race=True,
              need=("begin", "end", "look", "read", "start", "stop", "notify", "file"))


def c03(ctx):
    ctx.model("Output", "Output_small.cfg", workers=8)
    ctx.model("Output", "Output_close.cfg", workers=8)
    if ctx.thorough:
        ctx.model("Output", "Output_live.cfg", workers=8)
        ctx.model("Output", "Output_deep.cfg", workers=8)
    ctx.trace("output", "OutputTrace", n=ctx.pick(1500, 20000), shards=8, need=("flush", "track", "stalls"))


def c09(ctx):
    ctx.model("TtyMC", "Tty_small.cfg", workers=8)
    ctx.model("TtyMC", "Tty_shared.cfg", workers=8)
    if ctx.thorough:
        ctx.model("TtyMC", "Tty_deep.cfg", workers=8)
    g = ctx.gen("TtyMC", "Tty_gen.cfg")
    ctx.trace("tty", "TtyTrace", gen=g, genmax=ctx.pick(1500, 20000), n=ctx.pick(1500, 20000), shards=8,
              need=("call", "body", "done", "raw", "echo", "stty", "chfl", "mode", "print", "read", "type", "flush", "size", "nowrite"))


def c16(ctx):
    ctx.model("Ticker", ctx.pick("Ticker_small.cfg", "Ticker_deep.cfg"), workers=8)
    ctx.trace("ticker", "TickerTrace", n=ctx.pick(60, 2500), shards=8, race=True,
              need=("enter", "exit", "wait", "waited"))


def c17(ctx):
    ctx.model("SignalsMC", ctx.pick("Signals_small.cfg", "Signals_deep.cfg"), workers=8)
    g = ctx.gen("SignalsMC", "Signals_gen.cfg")
    ctx.trace("signals", "SignalsTrace", gen=g, genmax=ctx.pick(3000, 0), n=ctx.pick(600, 10000), shards=8,
              need=("notify", "open", "exit", "close", "send", "take", "raise", "err", "ran"))


def c18(ctx):
    ctx.model("FrameLoop", ctx.pick("FrameLoop_small.cfg", "FrameLoop_deep.cfg"), workers=8)
    g = ctx.gen("FrameLoop", "FrameLoop_gen.cfg")
    ctx.trace("platform", "PlatformTrace", gen=g, genmax=ctx.pick(300, 0), n=ctx.pick(500, 6000), shards=8,
              need=("type", "size", "sig", "enter", "run", "frame", "settled", "drawn", "flush", "ran", "left"))


def c21(ctx):
    ctx.model("Replay", ctx.pick("Replay_small.cfg", "Replay_deep.cfg"), workers=8)
    g = ctx.gen("Replay", "Replay_gen.cfg")
    ctx.trace("replay", "PlatformTrace", gen=g, genmax=ctx.pick(200, 2000), n=ctx.pick(200, 2500), shards=8,
              need=("type", "size", "sig", "run", "frame", "settled", "drawn", "flush", "ran", "left"))


PROPS = {
    "C01": dict(run=c01, assumptions=[]),
    "C02": dict(run=c02, assumptions=[]),
    "C03": dict(run=c03, assumptions=[]),
    "C04": dict(run=c04, assumptions=[]),
    "C05": dict(run=c05, assumptions=[]),
    "C06": dict(run=c06, assumptions=[]),
    "C07": dict(run=c07, assumptions=[]),
    "C08": dict(run=c08, assumptions=[]),
    "C09": dict(run=c09, assumptions=[]),
    "C10": dict(run=c10, assumptions=[]),
    "C11": dict(run=c11, assumptions=[]),
    "C12": dict(run=c12, assumptions=[]),
    "C13": dict(run=c13, assumptions=[]),
    "C14": dict(run=c14, assumptions=[]),
    "C15": dict(run=c15, assumptions=[]),
    "C16": dict(run=c16, assumptions=[]),
    "C17": dict(run=c17, assumptions=[]),
    "C18": dict(run=c18, assumptions=[]),
    "C19": dict(run=c19, assumptions=[]),
    "C20": dict(run=c20, assumptions=[]),
    "C21": dict(run=c21, assumptions=[]),
    "C22": dict(run=c22, assumptions=[]),
    "C23": dict(run=c23, assumptions=[]),
    "C24": dict(run=c24, assumptions=[]),
    "C25": dict(run=c25, assumptions=[]),
    "C26": dict(run=c26, assumptions=[]),
    "C27": dict(run=c27, assumptions=[]),
    "C28": dict(run=c28, assumptions=[]),
}
