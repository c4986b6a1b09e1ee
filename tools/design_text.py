HEAD = """# Runtime monitoring of ebranlard/weio

`/verif` decides the 24 properties of `properties.jsonl` by running the real library (imported from `/repo`, pure
Python, nothing to build) under generated, hostile and stress workloads while monitors watch every execution.
`./run.sh C17 quick` (or `thorough`, `--seed N`, `--replay FILE`) runs one check.  This file is written by
`tools/design_src.py` (texts in `tools/design_text.py`); `properties.jsonl` and `MANIFEST.json` by `tools/props_src.py`
and `tools/manifest_src.py`.  Nothing is run from `/verif/seeded`.

## What "monitoring" means for this code base

The library reads, converts and writes about forty engineering file formats.  It is single threaded, has no native
code of its own and no server, so the memory-error, data-race and undefined-behaviour half of the technique family
(ASan, TSan, UBSan, Miri, race detectors) has nothing to observe here: every native instruction executed belongs to
CPython, numpy, pandas or pyarrow, which are outside the repository.  What remains, and is used for all properties, is
the other half: instrumented executions judged by independent oracles.

* **Reference codecs.**  `mon/gen/*` contains encoders written from the file-format definitions and not from the
  readers; a case encodes random content, the library reads it, and every number, name, unit and label observed is
  compared with what was encoded.  Writers are judged by an independent decoder, by conservation (what went in comes
  out, nothing else appears) or by both.
* **Shadow models.**  Stateful objects (FAST input, htc trees, wind boxes, graphs, decks) undergo random histories of
  queries, edits, conversions, reads and writes while a model is updated in step; after every operation the whole
  object is compared with the model, so an effect on a neighbour is seen as well as the effect asked for.
* **Purity and file-system monitors.**  Objects are fingerprinted (recursively, with dtypes and array bytes) around every
  query; directories are fingerprinted around every operation; `open` is traced so that files left open and writes to
  other targets are seen, whatever the function that performs them.
* **Fault injection.**  Files cut at any byte, header counts enlarged, content of another format under the extension,
  unencodable text half-way through a write, a full disk / failing stream, missing and read-only companions, sub-files
  that disappear.  Oracle: documented error, or the remaining data unchanged - never invented values.
* **History independence.**  Most workloads repeat a reading with the same object, with a second object in between, or
  after another file was read by the same object, and require the answer of a new object.
* **Hang and memory monitor.**  A CPU-time signal stops a case after 60 s of CPU (a case needs milliseconds) or 3 GB; this
  is reported as a violation (`terminates`), since no property allows an endless reading.  Sized by CPU, not by clock,
  so that a loaded machine does not change the verdict.

### Verdicts

Three-valued.  Exit 0: every oracle satisfied.  Exit 1 with `VIOLATION property=.. replay=..`: an oracle was
contradicted; the replay file holds workload, index and seed, which regenerate the case exactly (all randomness comes
from `sha256(property/workload/index/seed)`).  Exit 3: no answer - a workload observed nothing, a worker died, the
machine ran out of memory, disk or descriptors, or less than half of the cases fitted the time budget.  The evidence
file counts cases, distinct signatures, oracle evaluations by clause, and library events by outcome, so that a
workload which silently stops observing is visible.

Cases run in eight processes, each case in a private scratch directory below a temporary root with `HOME` and
`XDG_DATA_HOME` redirected there; nothing outside it is ever written.

`quick` takes between 3 and 60 s per property here on 8 cores, `thorough` between 1 and 10 minutes (about ten to
twenty times the cases, and wider sizes in some generators).

## Properties
"""

WHY = {
'C01': 'The answer depends on the whole registry (order, priorities, user modules) and on everything handled before; the tests detect one file per format in a fresh process. Here registries, verdicts of readers and histories are random and the oracle tries every registered reader.',
'C02': 'A round trip must hold for every mixture of tables, lists, labels and values; each family has its own writer branch. The tests compare a few example files, and with tolerance.',
'C03': 'The property is about histories of edits and about everything that was not edited; the shadow model sees both after every step.',
'C04': 'Types, spellings, separators and table sizes combine; only generated content with known meaning tells a value that is read wrongly from one that is merely read.',
'C05': 'Packed scaling, buffer boundaries, header variants and column order only fail for particular sizes; the encoder reaches any row/channel count, and the unbuffered and buffered readings are compared.',
'C06': 'Quantisation depends on range, offset and constancy of each channel; the oracle is the resolution promised by the format, evaluated for every value, and refusals must precede any change on disk.',
'C07': 'Wrap-around and off-by-one of int16 quantisation appear only for particular velocity ranges; the box is decoded by an independent reader.',
'C08': 'Queries must be pure and independent of order; a test calls each once. Random histories with a purity monitor find queries that alter the box.',
'C09': 'Index order, reversal of y and dimension parsing cancel in symmetric examples; random unequal dimensions and values separate them.',
'C10': 'Dialects are detected from the first lines; the combinations of separator, header, comments, units, encodings and line ends are thousands.',
'C11': 'Repeated cycles and edits decide whether names, rows or digits are lost; each one small, and only for some dialects.',
'C12': 'Scale factors, sensor texts of the maximal width, multi-dot names and repeated conversions interact; a monitor over several objects and files observes leakage.',
'C13': 'Tables with several sets, unusual set numbers, extreme exponents, edits, and interpolation at set boundaries; the beam stiffness is compared with an independent Timoshenko element integrated from the interpolated properties.',
'C14': 'A tree format with repeated names, includes and comments: conservation of the tree under random edits is checked node by node.',
'C15': 'Binary layouts of three versions, with time axes that only round badly for some steps, and free text whose digits look like values.',
'C16': 'Gathering depends on which groups share lengths, names and dimensions; random projects with several groups, both precisions and file faults.',
'C17': 'Dimensions, labels with and without frames or derivatives and matrix presence are random; the oracle knows the label of each row and column.',
'C18': 'Scaling and mapping of modes depend on DOF permutations, missing DOFs and additional joint DOFs; two files in turn show state kept between objects.',
'C19': 'The property quantifies over cut points and header counts; every format is cut at many bytes and compared with the complete reading.',
'C20': 'Side effects are invisible to a test that looks at a result; the monitors look at everything else (file system, descriptors, object fingerprints, other objects).',
'C21': 'Decks combine optional sub-files, relative and absolute paths, working directories, target names; the oracle re-reads every written file through independent paths.',
'C22': 'Text/binary, versions, data sets, arrays and cell types combine; sizes of one and missing arrays break slicing code.',
'C23': 'Eleven small formats, each with own reader and writer; random tables with one row, one column, extreme numbers, latin text, and headers that disagree.',
'C24': 'Consistency of maps after arbitrary histories of additions, divisions, sorts and edits; the reference recomputes everything from nodes and elements.',
'C25': 'No example file of either format exists in the repository; the oracle evaluates the definitions (force, moment and power references, blade azimuths, signs) on the numbers it wrote.',
'C26': 'The base class is shared by all formats, and each format may break the protocol in its own way; the self-tests are judged on formats made by the monitor whose writer or reader misbehaves in a known way, and against the same steps done in another directory.',
}

TAIL = open(__file__.replace('design_text.py', 'design_tail.md')).read()
