#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file is always valid JSON)."""
import json, os
TF = "TestingFramework/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A recorded baseline always replays clean",
  "If a test run records its measurements (string, plain text, integer, float, double, boolean), re-running the same measurements in the same order against that recorded document succeeds: the run returns 0 and prints no report. "
  "This holds for names and texts of printable ASCII, tabs, newlines and carriage returns, for every numeric value including extremes, infinities and NaN, for any number of measurements and for every relative tolerance.",
  ["inputs", "histories"],
  "all sequences of measurements of all kinds, all values, names and texts in the documented character set, all relative tolerances and per-measurement tolerant flags",
  "The tests compare one fixed list of six measurements against hand-kept XML; none records and then replays, and none uses markup characters, empty texts, extremes, NaN or long documents.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfMeasurementVisitor.cpp"],
  [("Print/escape on output, expat on input", TF+"tfMeasurement.cpp ApplyEscapeSequences/PrintStartTag; "+TF+"tfRegressionTest.cpp ReadXMLInput"),
   ("equality / tolerant equality", TF+"tfMeasurement.h IsEqualTolerant; "+TF+"tfMeasurementVisitor.cpp CompareVisitor")],
  [("Input", "baseline entries still to be consumed", TF+"tfRegressionTest.h")],
  ["return value of Main", "output document / report stream"])

p("C02", "A comparison run counts exactly the disagreeing measurements",
  "In a comparison run whose test body returns its expected value, the result is exactly the number of test measurements that do not match the baseline entry at the same position, where a match needs equal name, equal type and equal value (textually, or within the relative tolerance in force at that moment for numeric measurements made tolerantly). "
  "Each test measurement uses up one baseline entry whether or not it matched; a measurement made after the baseline is used up counts as a disagreement, and unused baseline entries do not count. "
  "The outcome of one measurement never influences the outcome of another.",
  ["inputs", "histories"],
  "all pairs of (baseline sequence, test sequence), including insertions, deletions, renames, type changes, value changes, tolerance changes between measurements, and counts far above 255",
  "The tests have one all-equal and one all-different list of six; partial matches, shifted lists, exhausted baselines, tolerance changes in mid-run are never tried.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurementVisitor.cpp", TF+"tfMeasurement.h"],
  [("positional consumption and mismatch counting", TF+"tfRegressionTest.cpp CompareMeasurement/UnmatchedMeasurement/DifferenceMeasurement"),
   ("compare visitor", TF+"tfMeasurementVisitor.cpp CompareVisitor::Visit")],
  [("inputUnmatched", "number of disagreements so far", TF+"tfRegressionTest.h"),
   ("relativeTolerance", "tolerance in force", TF+"tfRegressionTest.h")],
  ["return value of Main"])

p("C03", "Errors never turn into success",
  "If a run fails (unusable option argument, missing or malformed baseline, output file that cannot be opened, any exception escaping from the test body), its result is non-zero whatever return value was expected. "
  "Otherwise, if the test body returns something else than the expected value the run's result is that returned value, and if it returns the expected value the result is 0 when recording and the number of disagreements when comparing. "
  "What the test body does to the working directory or to the baseline file while it runs does not change this verdict.",
  ["inputs", "fault_sequences", "histories"],
  "all combinations of mode, expected return, returned value, number of disagreements, failure kind and failure point, and side effects of the body on cwd and baseline file",
  "No test lets the body throw, uses a bad baseline or output, combines an expected return with disagreements, or changes directory.",
  [TF+"tfRegressionTest.cpp"],
  [("catch ladder and verdict", TF+"tfRegressionTest.cpp Main"), ("file opening", TF+"tfRegressionTest.cpp BeginMeasurement/EndMeasurement")],
  [("expectedReturn", "value the body must return", TF+"tfRegressionTest.h"), ("inputUnmatched", "disagreements, plus one while a run is incomplete", TF+"tfRegressionTest.h")],
  ["return value of Main"])

p("C04", "Tolerant comparison is the documented relation over all numbers",
  "Two integer, float or double measurements of one kind match under relative tolerance e exactly when |u-v| <= |e||u| or |u-v| <= |e||v|, or both magnitudes are below the type's epsilon, judged on the true values: no overflow or wrap-around makes distant numbers match. "
  "The relation is symmetric and reflexive, and a larger tolerance never loses a match. "
  "A value that is not a finite number (NaN, infinity, empty or non-numeric text) matches only the identical text, and in a run a tolerance of 0 or an intolerant measurement means that the texts must be identical.",
  ["inputs"],
  "all pairs of finite values of each numeric type including extremes, subnormals and opposite signs, all tolerances including 0 and negative ones, and non-numeric baseline texts",
  "One double is compared with one tolerance; no boundary, extreme, sign, zero, non-finite or unparsable case is exercised.",
  [TF+"tfMeasurement.h", TF+"tfMeasurement.cpp", TF+"tfMeasurementVisitor.cpp"],
  [("tolerance predicate", TF+"tfMeasurement.h _IsEqualTolerant / IsEqualTolerant"), ("text to number", TF+"tfMeasurement.cpp GetValue"), ("tolerance selection", TF+"tfMeasurementVisitor.cpp CompareVisitor::SetTolerance/Visit(NumericData)")],
  [("relativeTolerance", "tolerance of the visitor", TF+"tfMeasurementVisitor.h")],
  ["CompareVisitor::GetResult", "NumericData::IsEqualTolerant", "return value of Main"])

p("C05", "Recorded numbers keep their value",
  "A recorded integer (over the whole range the measurement call accepts) or boolean reads back as exactly the same value, and different integers are always recorded differently. "
  "A recorded finite float reads back within half a unit of its 7th significant digit and a double within half a unit of its 16th, sign included. "
  "Recording preserves order: a larger number never reads back smaller.",
  ["inputs"],
  "all long, bool, finite float and finite double values, subnormals and extremes included",
  "Tests record 0, 1.1, 20/9, 30/9 and true only.",
  [TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfRegressionTest.cpp"],
  [("number to text and back", TF+"tfMeasurement.cpp SetValue/GetValue"), ("measurement calls", TF+"tfRegressionTest.cpp MeasurementNumeric*")],
  [], ["recorded document", "GetValue / GetContent"])

p("C06", "Recorded documents are well-formed and lossless",
  "Every document a recording run writes is well-formed XML: one root element whose children are, in order, exactly one element per measurement, from which an independent XML parser reads back the measurement's name, type and content unchanged. "
  "This holds for every name and text of printable ASCII, tabs, newlines and carriage returns, markup characters and quotes included, and whatever the host is called, and the document is the same whether it goes to a file or to standard output.",
  ["inputs"],
  "all sequences of measurements (file measurements included) with arbitrary printable names and texts, to file and to standard output",
  "No existing test parses a recorded document, and no name or text in the tests contains a character that needs escaping.",
  [TF+"tfMeasurement.cpp", TF+"tfRegressionTest.cpp"],
  [("escaping", TF+"tfMeasurement.cpp ApplyEscapeSequences/PrintContent/PrintStartTag"), ("document frame", TF+"tfRegressionTest.cpp WriteXMLOutputStart/End")],
  [], ["recorded document"])

p("C07", "Only the logical content of a baseline matters, not its XML spelling",
  "The result of a comparison depends only on the sequence of names, types and contents in the baseline. "
  "Rewriting the document with other attribute order or quotes, character or predefined entity references, CDATA sections, comments, processing instructions, other line ends or white space between elements, or padding it to any length leaves the result unchanged, and so does adding unknown attributes or unknown (empty or text-only) sibling elements.",
  ["inputs"],
  "all baselines, all equivalent spellings, all document lengths (in particular around multiples of the reader's buffer size) and all positions of any construct relative to it",
  "All baselines in the tests are below 1 KB, written in one style.",
  [TF+"tfRegressionTest.cpp"],
  [("chunked expat reading", TF+"tfRegressionTest.cpp ReadXMLInput"), ("element handlers", TF+"tfRegressionTest.cpp start/end/data")],
  [("XMLParseData", "element depth, text collected so far, measurement under construction", TF+"tfRegressionTest.cpp")],
  ["return value of Main", "report stream"])

p("C08", "No baseline file can crash, hang or confuse a run",
  "Whatever bytes the baseline file holds, a comparison run ends without crash, hang, memory error or undefined behaviour, and gives the same result when repeated. "
  "If the file is not well-formed XML the result is non-zero; in a well-formed file unknown elements, and everything nested inside a measurement, are ignored, while a measurement element without a known type still uses up its position, so that well-formed but unexpected content never makes a disagreement disappear.",
  ["inputs"],
  "all byte strings, and structured mutations of valid baselines",
  "The tests read only valid baselines.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurement.cpp"],
  [("element handlers and parse loop", TF+"tfRegressionTest.cpp start/end/data/ReadXMLInput")],
  [("XMLParseData", "parser state", TF+"tfRegressionTest.cpp")],
  ["return value of Main", "sanitizers"])

p("C09", "Base64 encoding is exact and line-wrapped as documented",
  "For every byte string, the encoding consists of exactly the RFC 2045 base64 digits and padding of that string; with line breaks enabled it is split in lines of at most 72 characters, all but the last exactly 72, without a trailing newline, and otherwise it is a single line. "
  "Decoding the encoding, in either mode, returns the original bytes.",
  ["inputs"],
  "all byte strings of all lengths, both line-break modes",
  "No test calls the encoder.",
  [TF+"tfBase64.cpp", TF+"tfBase64.h"],
  [("encoder", TF+"tfBase64.cpp Encode")], [("addNewLines", "line-break mode", TF+"tfBase64.h")],
  ["Base64::Encode", "Base64::Decode"])

p("C10", "Base64 validation and decoding agree, for any input string",
  "For any string, the validity check returns the number of bytes decoding will produce, or 0 when the string is not valid base64 (wrong alphabet, misplaced, excess or missing padding, incomplete last group), white space being ignored and text after a padded group not considered. "
  "Decoding succeeds for exactly the valid strings (an empty or white-space-only one yielding no bytes), returns that number, produces exactly those bytes and writes nothing beyond them; for all others it throws. "
  "With invalid characters set to be ignored, both behave as if those characters were absent.",
  ["inputs"],
  "all strings over all 256 byte values, both invalid-character modes",
  "No test calls the decoder.",
  [TF+"tfBase64.cpp", TF+"tfBase64.h"],
  [("validator and decoder", TF+"tfBase64.cpp IsBase64/Decode"), ("alphabet table", TF+"tfBase64.cpp base64bits")],
  [("ignoreInvalids", "invalid-character mode", TF+"tfBase64.h")],
  ["Base64::IsBase64", "Base64::Decode", "bytes around the output buffer"])

p("C11", "A measurement's text, decoded data and copies stay consistent",
  "Through any sequence of setting text, setting data, changing between no encoding and base64, reading, copying and assigning, a data measurement's decoded data is always what its current text means under its current encoding, and setting data makes both the data and the text represent exactly those bytes (base64 texts being valid and not blank). "
  "Copies and assigned objects equal their source, are independent of it afterwards, and no history leaks or corrupts memory.",
  ["histories", "inputs"],
  "all operation sequences over several measurement objects with arbitrary bytes as data",
  "No test sets data, encodes, copies or assigns a measurement.",
  [TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfBase64.cpp"],
  [("cache of decoded data", TF+"tfMeasurement.cpp UpdateContentAsData/DeleteContentAsData/SetContentAsData"), ("copy and assignment", TF+"tfMeasurement.cpp")],
  [("data/dataSize", "cached decoded bytes", TF+"tfMeasurement.h"), ("encoding", "how the text encodes the data", TF+"tfMeasurement.h")],
  ["GetContent", "GetContentAsData", "GetContentAsDataSize"])

p("C12", "The text diff is a correct edit script",
  "For any two texts, the diff output is empty exactly when they are equal, and otherwise is a sequence of change commands with increasing, non-overlapping line ranges which, applied to the first text, produces the second, every quoted line being the line of the text it is said to come from.",
  ["inputs"],
  "all pairs of texts without NUL bytes: any line count, repeated lines, empty lines, with and without final newline, lines with colliding hashes",
  "The diff is exercised on one pair of two-line texts and its output is not checked.",
  [TF+"tfDiff.cpp", TF+"tfDiff.h"],
  [("Myers middle-snake recursion", TF+"tfDiff.cpp GenerateEditList/FindEditMidPoint"), ("line identity", TF+"tfDiff.cpp BuildLines"), ("printing", TF+"tfDiff.cpp PrintEditList")],
  [("diagonals", "furthest-reaching points", TF+"tfDiff.cpp")],
  ["output of Diff"])

p("C13", "The text diff is minimal",
  "The number of deleted plus inserted lines in the diff of any two texts is the smallest possible, that is lines(first) + lines(second) - 2 * (length of a longest common subsequence of lines).",
  ["inputs"],
  "all pairs of texts without NUL bytes",
  "The tests never look at the diff output.",
  [TF+"tfDiff.cpp"],
  [("shortest edit search", TF+"tfDiff.cpp FindEditMidPoint")],
  [("diagonals", "furthest-reaching points", TF+"tfDiff.cpp")],
  ["output of Diff"])

p("C14", "Every disagreement is reported, and only disagreements are",
  "In a comparison run the report (to the output file if one is named, else to standard output) contains nothing for matching measurements and, for each disagreeing one in order, well-formed XML elements that show it: an unmatched measurement with its name marked and its value; a differing plain text as a line diff that turns the baseline text into the test text; any other differing measurement as the test and the baseline value, both names marked. "
  "An XML parser reads the original names and values back from the report unchanged.",
  ["inputs", "histories"],
  "all pairs of baseline and test sequences with printable names and texts",
  "The tests check only the number of disagreements, never the report.",
  [TF+"tfMeasurementVisitor.cpp", TF+"tfRegressionTest.cpp", TF+"tfMeasurement.cpp"],
  [("reports", TF+"tfMeasurementVisitor.cpp DifferenceVisitor; "+TF+"tfRegressionTest.cpp UnmatchedMeasurement/DifferenceMeasurement")],
  [], ["output stream of a comparison run"])

p("C15", "File measurements compare file contents, and missing files never match",
  "A text-file measurement matches exactly when the test file and the baseline file both can be read and hold identical bytes, or, against an inline plain-text baseline of that name, when the file's bytes equal the inline text. "
  "The baseline file is the first existing regular file of the recorded base name in the search path, else the recorded name taken relative to the working directory; recording stores only the base name. "
  "A file that cannot be read never matches anything.",
  ["inputs", "configurations"],
  "all file contents (all byte values, empty, large, without final newline), all search paths, file placements, missing files on either side, all names",
  "One identical three-line file in one search directory is compared; no difference, missing file or search order is tried.",
  [TF+"tfMeasurement.cpp", TF+"tfRegressionTest.cpp", "FileUtilities/PathName.cpp"],
  [("loading", TF+"tfMeasurement.cpp MeasurementFile::Load/IsEqual"), ("baseline lookup", TF+"tfRegressionTest.cpp CompareMeasurement")],
  [("searchPath", "directories searched for baselines", TF+"tfRegressionTest.h")],
  ["return value of Main"])

p("C16", "Framework options are consumed and everything else is passed through",
  "Leading occurrences of -I, -O, -R and -P with their values are removed and take effect (last -I, -O, -R wins, -P directories are searched latest first); the program name and every argument from the first other one on reach the test body unchanged and in order. "
  "A run always terminates on any argument list, also when an option is last and has no value.",
  ["inputs"],
  "all argument lists, including repeated options, options as values, missing values, empty arguments and option look-alikes after the first ordinary argument",
  "Eight fixed argument lists are tried; none repeats an option or omits a value.",
  [TF+"tfRegressionTest.cpp"],
  [("option parser", TF+"tfRegressionTest.cpp ParseAndRemoveArguments")],
  [("inFileName/outFileName/searchPath/expectedReturn", "parsed options", TF+"tfRegressionTest.h")],
  ["argv seen by the test body", "GetInFileName/GetOutFileName/GetExpectedReturn/GetInFileSearchPath"])

p("C17", "Path name operations are mutually consistent",
  "Appending a relative path to a non-empty path yields a path whose tail is the appended path's tail and that names the file found by walking from the one to the other; appending an absolute path, or appending to an empty path, yields the appended path. "
  "For a path of more than one component that does not end in a slash, the directory name and the tail together name the same file as the path, the tail contains no slash, and a path without a slash has directory name '.'; the extension is what follows the last period of the tail, or empty.",
  ["inputs"],
  "all strings of path characters: relative, absolute, repeated and trailing slashes, dots, empty",
  "Paths are only built once from a constant directory and a constant file name.",
  ["FileUtilities/PathName.cpp", "FileUtilities/PathName.h"],
  [("string path algebra", "FileUtilities/PathName.cpp Append/DirectoryName/Tail/Extension/GetPathType")],
  [("pathName", "the path text", "FileUtilities/PathName.h")],
  ["GetPathName of the results", "stat of the results in a generated tree"])

p("C18", "Path search finds the first regular file, or nothing",
  "Searching a path list returns the requested name joined to the first directory in which it is a regular file, whatever other kinds of entry of that name come earlier, and the empty path when there is none (an absolute name being found iff it is itself a regular file and the list is not empty). "
  "Splitting a colon-separated list, given directly or through an environment variable, yields the fields in order, empty fields included, and an empty or unset value yields no fields.",
  ["inputs", "configurations"],
  "all directory lists, file placements (regular files, directories, dangling and live links), relative and absolute names; all colon-separated strings",
  "Search is only exercised where the single listed directory holds the file.",
  ["FileUtilities/PathName.cpp", "FileUtilities/FileUtilities.cpp"],
  [("search loop", "FileUtilities/PathName.cpp SearchPathList"), ("splitting", "FileUtilities/FileUtilities.cpp GetPathListFromColonSeparatedList")],
  [], ["returned PathName / PathList"])

p("C19", "File-system queries tell the truth about the file system",
  "On any directory tree, existence, file, directory and access queries and directory listings agree with the operating system's own answers for the path, at every moment (no stale answer after the tree or the path changes). "
  "(For a directory, being readable or writable includes the permission to search it; the entries '.' and '..' of listings are left open.) Changing the working directory to an existing directory one may enter and asking for it names that directory, at any depth; changing to something that is no directory throws, and any failed change leaves it unchanged and is not reported as a success.",
  ["histories", "configurations"],
  "all histories of creating, deleting, re-moding, renaming and linking entries in a scratch tree, interleaved with queries by an unprivileged user, including directories nested beyond any fixed buffer",
  "Queries are only made on a few files of the source tree.",
  ["FileUtilities/PathName.cpp", "FileUtilities/FileUtilities.cpp"],
  [("stat/access wrappers", "FileUtilities/PathName.cpp"), ("cwd wrappers", "FileUtilities/FileUtilities.cpp SetCurrentDirectory/GetCurrentDirectory")],
  [("fileStat cache", "validity flag of cached answers", "FileUtilities/PathName.h")],
  ["query results versus direct system calls"])

p("C20", "Piping a command records its exact output and judges its exit",
  "The pipe tool records exactly the bytes the given command wrote to standard output (whatever it wrote to standard error, in any interleaving and amount) as one plain-text measurement; run again against that record it succeeds, and it fails if the output differs anywhere. "
  "Its verdict uses the command's exit code against the expected return, and a command that cannot be started or dies by a signal is never a success.",
  ["inputs", "schedules"],
  "all commands: any output of printable ASCII, tabs, newlines and carriage returns, split over any writes to both streams, any exit code or fatal signal, any arguments",
  "No test runs the tool.",
  [TF+"tfPipeToXML.cxx", TF+"tfRegressionTest.cpp"],
  [("child output loop", TF+"tfPipeToXML.cxx Test")], [],
  ["exit status of the tool", "recorded document"])

p("C21", "Image difference statistics equal a brute-force computation",
  "For any two images of equal size, intensity threshold and radius, the difference filter counts exactly the baseline pixels whose closest-valued test pixel within the radius (edge pixels replicated) differs by more than the threshold (threshold and radius are zero until set), reports the sum and (over all pixels) the mean of those minimal differences and outputs them as the difference image, zero elsewhere. "
  "The results do not depend on the number of work units, and with boundary pixels ignored only pixels whose whole neighbourhood lies in the image count. A comparison of two images returns how many differing pixels exceed the tolerated number, counting only those of the given region if one is given; it is never 0 without a region for images of different size, nor for a region that is not in both images.",
  ["inputs", "schedules", "configurations"],
  "all small 2-D and 3-D scalar and vector images, thresholds, radii, work-unit counts and boundary modes",
  "The image tests compare one image pair, did not pass in this build at first, and the filter test only instantiates the templates.",
  ["itktf/itktfDifferenceImageFilter.h", "itktf/itktfDifferenceImageFilter.txx", "itktf/itktfRegression.h"],
  [("threaded neighbourhood search and reduction", "itktf/itktfDifferenceImageFilter.txx")],
  [("m_ThreadMagnitudeSum/m_ThreadNumberOfPixels", "per-work-unit partial sums", "itktf/itktfDifferenceImageFilter.h")],
  ["GetNumberOfPixelsWithDifferences/GetTotalMagnitude/GetMeanMagnitude/GetOutput", "Regression::CompareImage"])

p("C22", "Image measurements match exactly when geometry and pixels agree",
  "An image measurement matches its baseline image exactly when both files can be read, have equal size, spacing and origin, and at most the tolerated number of pixels differ by more than the tolerated intensity within the tolerated radius; no tolerance is in force until one is set, in a run as in a comparison visitor used directly. "
  "Every image disagreement counts as one and later measurements of the same run are still compared; the report names both sizes if they differ, both files if one can not be read, and otherwise gives the number of differing pixels. The baseline image is the first regular file of the recorded base name in the search path, which ends with the configured data directory, or else the recorded name.",
  ["inputs", "configurations"],
  "all pairs of image files (pixel changes, size, spacing, origin changes), all tolerance triples including counts right at the limit",
  "The image comparison tests compare few images and did not pass in this build at first; tolerances are never tested at their limits.",
  ["itktf/itktfCompareVisitor.cxx", "itktf/itktfDifferenceVisitor.cxx", "itktf/itktfRegression.cxx", "itktf/itktfRegression.h"],
  [("image comparison", "itktf/itktfCompareVisitor.cxx RegressionTestImage"), ("tolerances", "itktf/itktfRegression.cxx SetImageInsightTolerance/CreateCompareVisitor")],
  [("m_IntensityTolerance/m_NumberOfPixelsTolerance/m_RadiusTolerance", "tolerances in force", "itktf/itktfRegression.h")],
  ["return value of Main"])

p("C23", "Composite image-toolkit values are recorded component by component",
  "Recording a size, index, region, point, vector, fixed array or matrix writes one numeric measurement per component, in order, with names formed from the given name and the component's position, carrying that component's value; replaying the same value is clean, and changing k components (beyond tolerance where tolerant) gives exactly k disagreements.",
  ["inputs"],
  "all dimensions 1 to 4, all component values in range, all subsets of changed components",
  "One 3-D region is compared once.",
  ["itktf/itktfRegression.h"],
  [("component loops", "itktf/itktfRegression.h MeasurementInsight*")], [],
  ["recorded document", "return value of Main"])

p("C24", "Generated output file names are reproducible and never repeat in a run",
  "File names generated in a run are pairwise distinct, have the form program_hash_sequence.extension (under the given root when there is one), count up from 1, and depend only on the argument list and the call number: the same command line gives the same names again, and changing one character of an argument gives other names.",
  ["inputs", "histories"],
  "all argument lists, extensions, roots and call counts",
  "No test generates a file name.",
  ["itktf/itktfRegression.cxx"],
  [("name generation", "itktf/itktfRegression.cxx GenerateFileName/Main")],
  [("m_FileNameCount", "call counter", "itktf/itktfRegression.h")],
  ["Regression::GenerateFileName"])

p("C25", "A recording that could not be written is not a success",
  "When the output of a recording run cannot be written completely (device full, file size limit, at any byte of the document), the run returns non-zero. "
  "Conversely, when a recording run returns 0 with an output file, that file holds the complete document.",
  ["fault_sequences", "crash_points"],
  "all documents and all positions at which writing starts to fail",
  "No test injects a write failure.",
  [TF+"tfRegressionTest.cpp"],
  [("closing the output", TF+"tfRegressionTest.cpp EndMeasurement")],
  [("os", "output stream", TF+"tfRegressionTest.h")],
  ["return value of Main", "output file"])

p("C26", "Measurement equality is an equivalence decided by name, type and data",
  "Two measurements of any kinds, inline or in files, compare equal exactly when their names, types and decoded data are equal, in whichever order they are compared and however the data are encoded; comparing changes neither of them. "
  "A visitor reaches the handler for the measurement's own kind, and where a handler is not provided the one of the next more general kind.",
  ["inputs", "programs"],
  "all pairs and triples of measurements of all kinds, encodings and contents; all subsets of handlers a visitor may provide",
  "Equality is only exercised between inline measurements of one kind through the fixed test lists; no custom visitor exists in the tests.",
  [TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfMeasurementVisitor.cpp"],
  [("double dispatch equality", TF+"tfMeasurement.cpp IsEqual"), ("visitor fallback", TF+"tfMeasurementVisitor.cpp MeasurementVisitor::Visit; AcceptVisitor")],
  [], ["operator==", "handlers called"])

p("C27", "The image comparison tool applies each option to the images after it",
  "The image comparison tool compares its n-th image argument with the n-th baseline entry under the tolerances given before that argument, and its exit status is the number of images that disagree, 0 if all match. "
  "An unknown option, or an option whose value is missing or not a number, is a failure.",
  ["inputs"],
  "all argument lists mixing tolerance options and image files, all image pairs",
  "No test runs the tool.",
  ["itktf/itktfImageCompare.cxx", "itktf/itktfRegression.cxx", "itktf/itktfCompareVisitor.cxx"],
  [("argument loop", "itktf/itktfImageCompare.cxx Test")], [],
  ["exit status of the tool"])

p("C28", "A measurement call tells its caller whether the measurement agreed",
  "Every measurement call of a test (scalar, text file, image file, composite value) returns zero when it records and when it agrees with its baseline entry, and non-zero when it does not, also when the baseline is used up; a composite call returns zero exactly when all its components agree. "
  "The number of scalar and file calls that returned non-zero is the number of disagreements of the run.",
  ["inputs", "histories"],
  "all sequences of measurement calls of all kinds, all baselines agreeing and disagreeing anywhere, recording and comparing",
  "No test looks at what a measurement call returns.",
  [TF+"tfRegressionTest.cpp", TF+"tfRegressionTest.h", "itktf/itktfRegression.h", "itktf/itktfRegression.cxx"],
  [("result of a comparison", TF+"tfRegressionTest.cpp CompareMeasurement"), ("sums of composite calls", "itktf/itktfRegression.h MeasurementInsight*")],
  [("inputUnmatched", "disagreements so far", TF+"tfRegressionTest.h")],
  ["return values of the measurement calls", "return value of Main"])

p("C29", "Runs are independent of each other and release what they used",
  "Running a test object again gives the result, output and report that a fresh object with the same settings gives, whatever earlier runs did: recorded, compared, disagreed, failed or threw; the same holds for a run of one object within the body of another's. "
  "After a run, complete or failed, its files are closed and its memory is released, so that a history of runs can be repeated without end; what was recorded before an exception stays in the output file.",
  ["histories", "fault_sequences"],
  "all histories of runs on one or several objects, with any mode, outcome and failure, nested or not",
  "Every test runs one object once per process.",
  [TF+"tfRegressionTest.cpp", TF+"tfRegressionTest.h"],
  [("opening, closing and resetting", TF+"tfRegressionTest.cpp Main/BeginMeasurement/EndMeasurement")],
  [("is, os", "streams of the run", TF+"tfRegressionTest.h"), ("Input", "baseline entries left", TF+"tfRegressionTest.h"), ("inputUnmatched", "disagreements of the run", TF+"tfRegressionTest.h")],
  ["return value of Main", "output and report", "open descriptors", "allocation balance"])

p("C30", "The report of an image disagreement shows what differs, and truly",
  "For every image measurement that disagrees, and for no other, the report shows: of two images of different size, both sizes; of images of equal size, the spacing, origin, component type and number of channels where they differ and only there, the number and the statistics of the differing pixels, and pictures of the baseline, the test and their signed difference (middle slice, stretched to 0-255); of an image that cannot be read, both file names. "
  "All go to the output of the run, in well-formed XML for any name, and the pictures named in it exist and show the images.",
  ["inputs", "histories"],
  "all pairs of images of up to three dimensions and any geometry, type, pixels, tolerances, names and unreadable files, several to a run",
  "The tests compare a few fixed images and look only at the exit status.",
  ["itktf/itktfDifferenceVisitor.cxx", "itktf/itktfDifferenceVisitor.h", "itktf/itktfDifferenceImageFilter.txx"],
  [("difference report", "itktf/itktfDifferenceVisitor.cxx Visit(MeasurementFile)")], [],
  ["report", "picture files"])

p("C31", "A filter watcher prints its filter's events, in order, and nothing else",
  "A filter watcher writes to the stream it was given (standard output by default) a line with the filter's class and its comment when the filter starts and when it ends, a \" # \" for every iteration and a line ABORT for an abort, once each and in the order of the events, whichever other watchers and filters there are. "
  "From the end of the watcher on nothing more is written, whatever the filter does; a watcher keeps its filter alive and no longer.",
  ["histories"],
  "all histories of attaching and ending watchers, events, runs and dropped filters",
  "The tests do not use the filter watcher.",
  ["itktf/itktfFilterWatcher.h"],
  [("observers", "itktf/itktfFilterWatcher.h constructor and destructor")], [("process", "the watched filter", "itktf/itktfFilterWatcher.h"), ("observer tags", "what the watcher added to the filter", "itktf/itktfFilterWatcher.h")],
  ["the stream"])

p("C32", "Whenever a run stops, its output holds everything measured before",
  "If a run stops in its body at any point (an exception, exit without cleanup, a signal, abort), its output, a file or standard output, holds completely and in order every measurement made, or every disagreement reported, before that point, and nothing later. "
  "A record cut short in this way is not accepted as a baseline.",
  ["crash_points", "histories"],
  "all scripts of measurements, all stopping points and ways of stopping, recording and comparing",
  "No test stops a run half-way.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurementVisitor.cpp"],
  [("writing through at every measurement", TF+"tfRegressionTest.cpp Measurement*"), ("closing element", TF+"tfRegressionTest.cpp EndMeasurement")],
  [("os", "output stream", TF+"tfRegressionTest.h")], ["output file", "standard output"])

p("C33", "Settings take effect as made, and the baseline is the first file of its name",
  "Input name, output name, expected return value, search path and tolerance read back as they were last set, by call or by option, and the run uses exactly these. "
  "The baseline is the first regular file of the input name in the directories of the search path in their order, a path prepended later being searched earlier, and otherwise the name itself; a run compares exactly when there is such a file, and a run with an input name but no usable baseline fails without running the body.",
  ["inputs", "histories"],
  "all sequences of settings and options, all directory trees holding files, directories and links of the name",
  "The tests use one fixed search path and one baseline, and never read a setting back.",
  [TF+"tfRegressionTest.cpp", TF+"tfRegressionTest.h", "FileUtilities/PathName.cpp"],
  [("settings", TF+"tfRegressionTest.cpp Set*/Get*/PrependInFileSearchPath"), ("lookup", TF+"tfRegressionTest.cpp BeginMeasurement/GetCompareMode")],
  [("searchPath, inFileName, outFileName, expectedReturn, relativeTolerance", "the settings", TF+"tfRegressionTest.h")],
  ["getters", "return value of Main", "output"])

p("C34", "A test's own comparison and report visitors decide and report",
  "If a test provides its own comparison or report visitor, every pair of equal name and type is shown to the comparison visitor exactly once, in order, with the baseline entry and the tolerance of the measurement (none for an intolerant one), and its decision alone counts; exactly the pairs it rejects are then shown to the report visitor, whose text goes to the output of the run in their place. "
  "The accepted ones, and only those, are handed on as matched. All visitors are released by the end of the run, also if one of them throws: the run then fails, or, if the test catches the exception, goes on with the next entry. A recording run makes none.",
  ["inputs", "programs", "histories"],
  "all scripts, baselines, tolerances and decision rules",
  "No test replaces a visitor of the base framework.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurementVisitor.h", TF+"tfMeasurementVisitor.cpp"],
  [("visitor creation and use", TF+"tfRegressionTest.cpp CompareMeasurement/DifferenceMeasurement")],
  [("_baseline, compareResults, tolerance", "what a visitor is given and answers", TF+"tfMeasurementVisitor.h")],
  ["calls of the visitors", "return value of Main", "output"])

p("C35", "Any measurement object prints as one element that says exactly what it holds",
  "Printing a measurement object of any kind, with any name, text, encoding and compression, writes one XML element of its kind from which an XML parser reads back exactly its name, its type, its encoding and compression where they are not \"none\", and its text; printing does not change the object, and a copy prints alike. With escaping switched off, values are printed as they are, so that already escaped ones say the same. "
  "What was printed is read back as a baseline entry equal in kind, name, type, encoding, compression and text. An object is made for exactly the six known inline types.",
  ["inputs"],
  "all measurement objects with names, attributes and texts of printable ASCII, tabs, newlines and carriage returns",
  "The tests print six fixed measurements through the framework, and never an attribute, an unescaped or a copied one.",
  [TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfRegressionTest.cpp"],
  [("printing", TF+"tfMeasurement.cpp Print/PrintStartTag/PrintContent/ApplyEscapeSequences"), ("reading", TF+"tfRegressionTest.cpp start/end/data"), ("kinds", TF+"tfMeasurement.cpp CreateDataMeasurement")],
  [("applyEscapeSequences", "whether values are escaped", TF+"tfMeasurement.h")],
  ["operator<<", "baseline seen by a comparison visitor"])

p("C36", "Measuring an image in memory records it in a file of its own that holds it",
  "Measuring an image in memory writes it to a file of its own, which holds its pixels, pixel type, spacing, origin and direction, and records that file under the given name; the image itself is not changed, and no two measurements of a run share a file. "
  "Run again against that record, equal images match and images of which a pixel differs disagree, and the baseline files stay as they are. If the image cannot be written the run does not succeed.",
  ["inputs", "histories", "fault_sequences"],
  "all images of scalar, RGB and vector pixels, two and three dimensions, any location, several to a run",
  "The tests measure image files only.",
  ["itktf/itktfRegression.h", "itktf/itktfRegression.cxx", "itktf/itktfCompareVisitor.cxx"],
  [("writing and measuring", "itktf/itktfRegression.h MeasurementInsightImage"), ("file names", "itktf/itktfRegression.cxx GenerateFileName")],
  [("m_FileNameCount", "number of the last file", "itktf/itktfRegression.h")],
  ["image files", "record", "return value of Main"])

p("C37", "Locale and stream settings never change a run, and a run leaves them alone",
  "What a run records, reports, decides and prints on standard output, and the file names it generates, are the same whatever global locale (digit grouping, decimal point, names of the truth values) and whatever number formatting of standard output is in force, also when the test changes them during the run. "
  "A baseline recorded under one locale replays clean under any other. A run leaves the global locale, the formatting of standard output, the environment, the file mode mask and the working directory as the test left them.",
  ["inputs", "configurations", "histories"],
  "all measurement scripts, baselines and images, any global C++ locale with grouping, decimal points or truth names of its own, any formatting flags, precision and fill of standard output, changed at any point of the run",
  "The tests run in the classic locale with the default formatting only.",
  [TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfMeasurementVisitor.cpp", TF+"tfRegressionTest.cpp", "itktf/itktfRegression.cxx", "itktf/itktfRegression.h", "itktf/itktfDifferenceVisitor.cxx"],
  [("numbers to text and back", TF+"tfMeasurement.cpp SetValue; "+TF+"tfMeasurement.h ReadValue"), ("line numbers of the text difference", TF+"tfMeasurementVisitor.cpp DifferenceVisitor"), ("component names, file names", "itktf/itktfRegression.h MeasurementXXX; itktf/itktfRegression.cxx GenerateFileName"), ("image reports", "itktf/itktfDifferenceVisitor.cxx")],
  [("global locale", "std::locale() taken by every new stream", "C++ library")],
  ["output document", "report", "return value of Main"])

p("C38", "Runs in different threads do not influence each other",
  "Test objects of the measurement framework (the image toolkit's apart) that run at the same time in different threads, each with an output file of its own, and the measurement objects, base64 coders, text differences and path names those threads use, give the results, documents and reports that each gives when it runs alone, without data races, also when they read the same baselines and files.",
  ["schedules", "inputs"],
  "all combinations of two to four scripts recorded or compared at the same time, under any interleaving",
  "The tests run one test object in one thread.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurement.cpp", TF+"tfMeasurement.h", TF+"tfMeasurementVisitor.cpp", TF+"tfBase64.cpp", TF+"tfDiff.cpp", "FileUtilities/PathName.cpp", "FileUtilities/FileUtilities.cpp"],
  [("state of a run is in the object", TF+"tfRegressionTest.h"), ("date of the document", TF+"tfRegressionTest.cpp WriteXMLOutputStart")],
  [("Input, inputUnmatched, os, is", "state of one run", TF+"tfRegressionTest.h")],
  ["output files", "return values of Main and of the measurement calls"])

p("C39", "A failing system call or memory request fails the run or leaves it as it is",
  "Whenever, at any point of a recording or comparing run, a request for memory or the opening, reading, writing, positioning or closing of a file fails, once or from then on, the run either does not succeed or does and reports exactly what it does without the fault; it never succeeds with a record that is cut or holds other values, and a baseline or file that could not be read in full never counts as equal. An output file that could not be closed is not a success. "
  "Reads and writes that are short or interrupted change nothing. A faulty run ends normally (no crash, no hang), leaves no file open and does not affect the next run of the object.",
  ["fault_sequences", "inputs"],
  "all scripts, baselines, files and framework options, with each kind of fault at any of the calls the run makes",
  "The tests never make a call fail.",
  [TF+"tfRegressionTest.cpp", TF+"tfMeasurement.cpp", TF+"tfMeasurementVisitor.cpp", TF+"tfDiff.cpp", TF+"tfBase64.cpp"],
  [("files opened, read and closed", TF+"tfRegressionTest.cpp BeginMeasurement/ReadXMLInput/EndMeasurement/ReleaseMeasurement"), ("contents of files", TF+"tfMeasurement.cpp MeasurementFile::Load"), ("numbers to text", TF+"tfMeasurement.cpp SetValue"), ("exceptions to results", TF+"tfRegressionTest.cpp Main")],
  [("inputUnmatched", "result of the run", TF+"tfRegressionTest.h")],
  ["return value of Main", "output document", "report", "open descriptors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
