"""check <property> [quick|thorough] [--seed N] [--replay FILE]"""
from __future__ import annotations
import argparse, importlib, json, os, sys, traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import engine  # noqa: E402

MODULE = {p: "readers" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C19", "C23", "C24")}
MODULE |= {p: "sessions" for p in ("C12", "C18")}
MODULE |= {p: "stores" for p in ("C15", "C16", "C21")}
ABOUT = {
    "readers": ("TLA+ reader state machine model-checked with TLC; every recorded read of the real code validated against it; "
                "files exported by the model replayed into the code",
                "The specified reader agrees with its declarative view in every state of the bounded models (each state is the file cut "
                "off at a line); each execution of the real code on generated and model-exported files returned exactly what the "
                "specification allows. Bounded by the files explored; trusts the rendering of abstract files into text and the "
                "value-number codec."),
}
ABOUT["sessions"] = (
    "TLA+ specification of packings and of call sessions, model-checked with TLC; sessions exported by the models replayed into the "
    "real code and every step of the recorded trace validated against the specification",
    "Every way to pack a file that the model exports, and every exported session of calls, gave for each call the result that the call "
    "alone gives on a fresh plain copy in a process without history, with files, streams, options and earlier results unchanged. "
    "Bounded by the contents, calls and session lengths explored.")
ABOUT["stores"] = (
    "TLA+ specification of converted output as a store of files with groups, model-checked with TLC; histories exported by the model are "
    "played into the real library and programs, and every step of the recorded trace validated against the specification",
    "After every step of every history each output file held exactly the groups the specification gives, refused and failed calls left "
    "every file byte for byte as it was, and reading back gave what was written. Bounded by the histories, contents and kinds of "
    "unreadable input explored.")
MODULE |= {p: "heads" for p in ("C14", "C20")}
ABOUT["heads"] = (
    "TLA+ specification of first lines, header records and dataset metadata, model-checked with TLC; every exported first line and record "
    "sequence is rendered and replayed into the real code, whose reports are validated against the specification",
    "For every first line of the exported decision table and every header explored, rinexinfo, rinexheader, gettime and load reported exactly "
    "what the specification derives from the abstract records. Bounded by the record sequences and values explored.")
MODULE["C22"] = "tools"
ABOUT["tools"] = (
    "TLA+ specification of pattern matching, the location table and time conversion, model-checked with TLC; exported patterns are replayed into "
    "the real file finder, every table, finding and conversion of the real code is validated against the specification",
    "The two definitions of matching agree on all bounded patterns and names; every table, finding and conversion explored was exactly what the "
    "specification derives from the files. Bounded by the files, patterns and times explored.")
MODULE["C17"] = "orbits"
ABOUT["orbits"] = (
    "TLA+ specification of the broadcast orbit in 24-digit arithmetic, model-checked with TLC against orbits whose positions are known by "
    "counting; those orbits and generated ephemerides are put in files and every position the real code computes is validated against it",
    "Every position computed for the orbits and ephemerides explored is within a millimetre of the specified one, and exactly the epochs "
    "with a record of the satellite have one. Bounded by the ephemerides explored; trusts the witnesses no further than the specification "
    "checks them (root, reciprocal, mean motion and eccentric anomaly by what defines them).")
MODULE["C25"] = "together"
ABOUT["together"] = (
    "TLA+ specification of calls made at the same time, model-checked with TLC; exported interleavings are forced on threads of the real code, line by "
    "line, and every recorded run is validated against the specification",
    "In every interleaving explored each call gave what it gives alone in a fresh process, outputs included, and files, options and results stayed as "
    "they were. Bounded by the calls and interleavings explored; a switch of thread takes place between lines of the library.")
MODULE["C26"] = "plots"
ABOUT["plots"] = (
    "TLA+ specification of panels, ground tracks and maps on top of the reader specification, model-checked with TLC; exported tables, record sequences and "
    "receivers are put in files and plotted, and the figures the real code makes are validated against the specification",
    "Every figure made for the files explored had exactly the specified panels, curves, points and markers. Bounded by the files explored; figures are looked "
    "at as objects and not drawn.")
NOT_YET = {}
ASSUME = {
    "plots": ["the position of a record is what the library computes for that record alone (C17 decides that) and pymap3d's geodetic coordinates of it", "figures are not rasterised"],
    "together": ["threads are switched between lines of the library, not inside numpy, xarray or netCDF4", "results are compared through digests of every value, name and attribute"],
    "orbits": ["GM and the Earth rotation rate are those of WGS 84 (3.986004418e14, 7.2921151467e-5)", "doubles are compared exactly as decimals, to a millimetre"],
    "tools": ["geodetic coordinates are those of pymap3d for the position"],
    "heads": ["geodetic coordinates are those of pymap3d for the position", "numbers are compared to 12 digits"],
    "stores": ["what a source holds is what its read alone gives (C01-C14 decide that)", "output is looked at through netCDF4 and xarray",
               "the disk does not fail"],
    "sessions": ["results are compared through digests of every value, name and attribute", "Hatanaka packing is done by the hatanaka "
                 "package's packer and used only where its unpacker gives the text back"],
    "readers": ["the rendering of an abstract file into text is the format standard's", "numbers are compared through the value numbers "
                "of harness/codec.py, a bijection on the texts written"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module(MODULE[a.prop])
    ctx = engine.Ctx(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            rp = json.loads(Path(a.replay).read_text(), object_hook=engine.dec)
            import pool
            for pool.FORCED in range(len(pool.ENVS)):   # in each environment of the workers
                mod.replay(ctx, rp)
                if ctx.violations:
                    break
            for v in ctx.violations:
                print("reproduced:", v["what"], v["clauses"])
            print("violation reproduced" if ctx.violations else "not reproduced")
            return 1 if ctx.violations else 0
        mod.run(ctx)
        return engine.finish(ctx, ASSUME.get(MODULE[a.prop], ()))
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            try:
                return engine.finish(ctx, ASSUME.get(MODULE[a.prop], ()))
            except Exception:
                return 1
        print(f"check {a.prop}: machinery failure", file=sys.stderr)
        return 3
    finally:
        for t in ctx.threads:
            t.join()
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
