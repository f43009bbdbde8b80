"""Runs `parse_test_output` of utils/plot/plot.py on a transcript.

pandas and pyvista are not installed here, so the few calls which the parser
makes are answered by stand-ins which only keep the values. Anything else they
are asked for ends in an error, which the monitor takes as "not usable".
"""

import contextlib
import importlib.util
import io
import sys
import types


class Index:
    def __init__(self, tuples):
        self.tuples = tuples

    @staticmethod
    def from_product(lists, names=None):
        out = [()]
        for values in lists:
            out = [t + (v,) for t in out for v in values]
        return Index(out)

    @staticmethod
    def from_tuples(tuples, names=None):
        return Index([tuple(t) for t in tuples])


class Frame:
    def __init__(self, rows=(), index=None, columns=None, dtype=None):
        self.rows = [tuple(r) for r in rows]
        self.index = index
        if dtype is float:
            self.rows = self.astype(float).rows

    def astype(self, kind):
        return Frame([[kind(x) for x in r] for r in self.rows], self.index)

    def set_index(self, index):
        if len(index.tuples) != len(self.rows):
            raise ValueError(f"{len(index.tuples)} labels for {len(self.rows)} rows")
        return Frame(self.rows, index)

    def __len__(self):
        return len(self.rows)


def concat(frames, axis=0, keys=None):
    frames = list(frames)
    if axis == 1:
        if len({len(f.rows) for f in frames}) != 1:
            raise ValueError(f"columns differ in length: {[len(f.rows) for f in frames]}")
        return Frame([sum(rs, ()) for rs in zip(*(f.rows for f in frames))])
    return Frame(
        [r for f in frames for r in f.rows],
        Index([t for f in frames for t in f.index.tuples]),
    )


def main():
    script, transcript = sys.argv[1:3]
    # The transcript is read as the script would: from a file or from standard input
    sys.argv = [script] if transcript == "-" else [script, transcript]
    pandas = types.ModuleType("pandas")
    pandas.DataFrame, pandas.MultiIndex, pandas.concat = Frame, Index, concat
    pyvista = types.ModuleType("pyvista")
    pyvista.plotting = types.ModuleType("pyvista.plotting")
    sys.modules.update({"pandas": pandas, "pyvista": pyvista, "pyvista.plotting": pyvista.plotting})
    spec = importlib.util.spec_from_file_location("plot", script)
    plot = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(plot)
    try:
        if hasattr(plot, "read_file"):
            with contextlib.redirect_stdout(io.StringIO()), plot.read_file() as text:
                pass
        elif transcript == "-":
            text = sys.stdin.buffer.read().decode()
        else:
            with open(transcript, encoding="utf-8") as f:
                text = f.read()
        df = plot.parse_test_output(text)
        lines = ["%d %r %s" % (int(t[0]), float(t[1]), " ".join(repr(x) for x in r)) for t, r in zip(df.index.tuples, df.rows)]
    except (ValueError, IndexError, OSError) as e:
        # The script itself cannot make sense of the transcript
        print("bad", e)
        return
    print("ok")
    print("\n".join(lines))


main()
