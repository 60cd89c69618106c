"""Descriptions that go into the evidence."""
LEVEL = {}
RULE = ("A seed generates one program: a history of public API calls (building several files, changing, rejecting, "
        "entering and leaving modes, writing, rewriting), a schedule of injected faults, clock, time zone and random state per "
        "operation and, in a share of runs, a thread schedule.  Each program, and each of its variants, runs in its own process "
        "forked from a pristine interpreter.  A run is non-trivial when it reached at least one write; two runs are distinct when "
        "their sequences of operation outcomes, fired faults, seam event counts, thread switches or shapes of produced files "
        "(record kinds, segment counts, padding, sets and object counts per logical file) differ.")
REAL = ["all of dliswriter from /repo/src, unmodified and without hooks", "numpy", "h5py/HDF5 library on real scratch files",
        "CPython io.BufferedWriter over the simulated raw file", "progressbar2"]
STUB = ["raw file object (io.FileIO subclass: decides open/write/close results, observes every flush)",
        "datetime.now in the library's origin module (simulated clock)", "timeit.default_timer (simulated monotonic clock)",
        "numpy/random global generators (seeded per operation)", "TZ environment (simulated zone changes)",
        "np.zeros called from the library (allocation failures)", "h5py.File / Dataset.__getitem__ (open and read failures)",
        "thread scheduler (baton passed at library lines chosen by the seed)", "asynchronous interrupts (sys.settrace line events)"]
ASSUME = ["the reference model in dst/model.py and the independent parser in dst/rp66.py state RP66 V1 and the documented defaults "
          "correctly", "sampling: a clean batch is evidence, not proof",
          "high-compatibility mode is process-wide by design: threads that use it concurrently are not generated"]
