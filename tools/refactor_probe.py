"""Behaviour-preserving rewrites of a copy of /repo in /tmp/ref: every check has to stay quiet on it (VERIF_REPO=/tmp/ref)."""
import re
R='/tmp/ref/'
def sub(f,*prs):
    s=open(R+f,newline='').read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(R+f,'w',newline='').write(s)
RT='TestingFramework/tfRegressionTest.cpp'
s=open(R+RT).read()
# option removal helper, shifting with std::rotate
loop=re.compile(r'\n[ \t]*for \(int j = i; j\+2 < argc; \+\+j\)\s*std::swap\(argv\[j\+2\], argv\[j\]\);\s*argc -=2;')
assert len(loop.findall(s))==4
s=loop.sub('\n          RemoveOption(argc, argv, i);',s)
s=s.replace('''  void RegressionTest::ParseAndRemoveArguments(''','''  namespace {
    // moves an option and its value behind the arguments left
    void RemoveOption(int &argc, char *argv[], int at) {
      std::rotate(argv + at, argv + at + 2, argv + argc);
      argc -= 2;
    }
  }

  void RegressionTest::ParseAndRemoveArguments(''',1)
s=s.replace('#include <limits>','#include <limits>\n#include <algorithm>',1)
# whole file parse in one go
i=s.index('  void RegressionTest::ReadXMLInput(void) {'); j=s.index('  void RegressionTest::ReadXMLInputFree')
s=s[:i]+'''  void RegressionTest::ReadXMLInput(void) {
    std::istream &in = this->GetInStream();
    std::string text;
    char chunk[4096];

    in.seekg(0, std::ios::beg);
    do {
      in.read(chunk, sizeof chunk);
      text.append(chunk, static_cast<size_t>(in.gcount()));
      if (!in && !in.eof())
	throw std::runtime_error("XML:read error");
    } while (!in.eof());

    XMLParseData pd;
    XML_Parser parser = XML_ParserCreate("US-ASCII");
    if (!parser)
      throw std::bad_alloc();
    XML_SetElementHandler(parser, start, end);
    XML_SetCharacterDataHandler(parser, data);
    XML_SetUserData(parser, &pd);

    const bool good = XML_Parse(parser, text.data(), static_cast<int>(text.size()), 1) != XML_STATUS_ERROR;
    if (!good)
      std::cerr <<  "XML:Parse error at line " << XML_GetCurrentLineNumber(parser)
		<< ": \\"" << XML_ErrorString(XML_GetErrorCode(parser)) << "\\"\\n";
    XML_ParserFree(parser);
    if (!good)
      throw std::runtime_error("parse error");
    this->Input.swap(pd.measurements);
  }


'''+s[j:]
# Measurement helpers
s=re.sub(r'    if \(this->GetCompareMode\(\)\) \{\s*return\s+this->CompareMeasurement\((\w+)(,\s*tolerant)?\);\s*\} else \{?\s*this->GetOutStream\(\) << \1 << std::endl;\s*(\}\s*)?return 0;',
  lambda m:'    return RecordOrCompare(*this, %s, %s);'%(m.group(1),'tolerant' if m.group(2) else 'false') if False else '    if (!this->GetCompareMode()) {\n      this->GetOutStream() << %s << std::endl;\n      return 0;\n    }\n    return this->CompareMeasurement(%s%s);'%(m.group(1),m.group(1),m.group(2) or ''),s)
# file kinds through one helper
for ty,fn in (('text/plain','MeasurementFileTextPlain'),('image/png','MeasurementFileImagePNG'),('image/jpeg','MeasurementFileImageJPEG')):
    m=re.search(r'  int RegressionTest::%s\(.*?\n  \}\n'%fn,s,re.S); assert m
    s=s.replace(m.group(0),'''  int RegressionTest::%s(const std::string &fileName, const std::string &name) {
    MeasurementFile mf;
    return SetUpFile(mf, "%s", name, fileName, this->GetCompareMode()) ? this->CompareMeasurement(mf) : (this->GetOutStream() << mf << std::endl, 0);
  }
'''%(fn,ty))
s=s.replace('  int RegressionTest::MeasurementTextString','''  namespace {
    bool SetUpFile(MeasurementFile &mf, const char *type, const std::string &name, const std::string &file, bool compare) {
      mf.SetFileName(compare ? file : fileutil::PathName(file).Tail().GetPathName());
      mf.SetAttributeName(name);
      mf.SetAttributeType(type);
      return compare;
    }
  }

  int RegressionTest::MeasurementTextString''',1)
# CompareMeasurement: early returns
i=s.index('  int RegressionTest::CompareMeasurement('); j=s.index('  CompareVisitor *RegressionTest::CreateCompareVisitor')
s=s[:i]+'''  int RegressionTest::CompareMeasurement(Measurement &test, bool tolerant) {
    if (this->Input.empty()) {
      this->UnmatchedMeasurement(test);
      return 1;
    }
    std::unique_ptr<Measurement> baseline(this->Input.front());
    this->Input.pop_front();

    if (baseline->GetAttributeType() != test.GetAttributeType() ||
	baseline->GetAttributeName() != test.GetAttributeName()) {
      this->UnmatchedMeasurement(test);
      return 1;
    }

    MeasurementFile *inf = dynamic_cast<MeasurementFile*>(baseline.get());
    if (inf && dynamic_cast<MeasurementFile*>(&test)) {
      const std::string found = fileutil::PathName(inf->GetFileName()).Tail().SearchPathList( this->GetInFileSearchPath() ).GetPathName();
      if (!found.empty())
	inf->SetFileName(found);
    }

    bool same;
    {
      std::unique_ptr<CompareVisitor> vis(this->CreateCompareVisitor());
      vis->SetBaselineMeasurement(baseline.get());
      tolerant ? vis->SetTolerance( this->GetRelativeTolerance() ) : vis->SetToleranceOff();
      test.AcceptVisitor(*vis);
      same = vis->GetResult();
    }
    if (!same) {
      this->DifferenceMeasurement(test, *baseline);
      return 1;
    }
    this->MatchedMeasurement(test);
    return 0;
  }


'''+s[j:]
s=s.replace('#include <algorithm>','#include <algorithm>\n#include <memory>',1)
# release order
s=s.replace('''    this->ReadXMLInputFree();

    if (this->os) {
      delete this->os;
      this->os = 0;
    }

    if (this->is) {
      delete this->is;
      this->is = 0;
    }
''','''    delete this->is;
    delete this->os;
    this->is = 0;
    this->os = 0;
    this->ReadXMLInputFree();
''')
open(R+RT,'w').write(s)
# Measurement
M='TestingFramework/tfMeasurement.cpp'
s=open(R+M).read()
i=s.index('    std::string::size_type j = 0;\n    std::string::size_type i = str.find_first_of("&<>");'); j=s.index('  std::string Measurement::EscapeAttributeValue')
s=s[:i]+'''    std::string result;
    for (char c : str) {
      switch (c) {
      case '&': result += "&amp;"; break;
      case '<': result += "&lt;"; break;
      case '>': result += "&gt;"; break;
      default: result += c;
      }
    }
    return result;
  }


'''+s[j:]
i=s.index('  bool DataMeasurement::IsEqual'); j=s.index('  void DataMeasurement::PrintStartTag')
s=s[:i]+'''  bool DataMeasurement::IsEqual(Measurement &m) {
    DataMeasurement *other = dynamic_cast<DataMeasurement*>(&m);
    if (!other)
      return m == *this;
    if (this->GetAttributeType() != other->GetAttributeType() || this->GetAttributeName() != other->GetAttributeName())
      return false;
    const size_t n = this->GetContentAsDataSize();
    if (n != other->GetContentAsDataSize())
      return false;
    const char *a = static_cast<const char*>(this->GetContentAsData());
    const char *b = static_cast<const char*>(other->GetContentAsData());
    return std::equal(a, a + n, b);
  }


'''+s[j:]
s=s.replace('#include <cstring>','#include <cstring>\n#include <algorithm>\n#include <map>',1)
i=s.index('    if (attributeType == "text/plain")'); j=s.index('  Measurement::Measurement(void) :')
s=s[:i]+'''    static const struct { const char *name; int kind; } table[] = {
      {"numeric/boolean", 5}, {"numeric/double", 4}, {"numeric/float", 3}, {"numeric/integer", 2}, {"text/plain", 0}, {"text/string", 1}};
    int kind = -1;
    for (size_t i = 0; i < sizeof table / sizeof *table; ++i)
      if (attributeType == table[i].name)
	kind = table[i].kind;
    switch (kind) {
    case 0: return new PlainText;
    case 1: return new StringText;
    case 2: return new IntegerNumeric;
    case 3: return new FloatNumeric;
    case 4: return new DoubleNumeric;
    case 5: return new BooleanNumeric;
    }
    return 0;
  }

'''+s[j:]
s=s.replace('''    char c=0;
    while (is.get(c))
      buff += c;
''','''    std::vector<char> chunk(1 << 14);
    while (is.read(&chunk[0], chunk.size()) || is.gcount() > 0)
      buff.append(&chunk[0], is.gcount());
''').replace('#include <map>','#include <vector>',1)
open(R+M,'w').write(s)
# Base64: encode by a helper
B='TestingFramework/tfBase64.cpp'
s=open(R+B).read()
i=s.index('  std::string Base64::Encode('); j=s.index('  size_t Base64::IsBase64')
s=s[:i]+'''  std::string Base64::Encode(const void *_input, size_t numBytes) {
    const unsigned char *p = static_cast<const unsigned char *>(_input);
    std::string out;
    size_t column = 0;
    for (size_t at = 0; at < numBytes; at += 3) {
      if (this->addNewLines && column == 72) {
	out += '\\n';
	column = 0;
      }
      const size_t n = std::min<size_t>(3, numBytes - at);
      unsigned long v = 0;
      for (size_t k = 0; k < 3; ++k)
	v = (v << 8) | (k < n ? p[at + k] : 0);
      for (size_t k = 0; k < 4; ++k)
	out += k <= n ? base64chars[(v >> (18 - 6 * k)) & 0x3f] : '=';
      column += 4;
    }
    return out;
  }

'''+s[j:]
s=s.replace('#include <limits>','#include <limits>\n#include <algorithm>',1)
open(R+B,'w').write(s)
# PathName
P='FileUtilities/PathName.cpp'
s=open(R+P).read()
s=s.replace('''    for (PathList::const_iterator i = pathList.begin(); i != pathList.end(); ++i) {
      
      fullFileName = *i;
      fullFileName.Append(*this);
      if (fullFileName.IsFile())
	return fullFileName;
    }
    return PathName("");''','''    PathList::const_iterator i = pathList.begin();
    while (i != pathList.end()) {
      PathName candidate(*i++);
      if (candidate.Append(*this).IsFile())
	return candidate;
    }
    return PathName("");''')
s=s.replace('    PathName fullFileName;\n','',1)
open(R+P,'w').write(s)
F='FileUtilities/FileUtilities.cpp'
s=open(R+F).read()
i=s.index('    std::string::size_type i = 0;\n    \n    while (i'); j=s.index('  bool SetCurrentDirectory')
s=s[:i]+'''    std::string item;
    for (char c : value) {
      if (c == ':') {
	pl.push_back(PathName(item));
	item.clear();
      } else
	item += c;
    }
    pl.push_back(PathName(item));
    return pl;
  }


'''+s[j:]
open(R+F,'w').write(s)
# itktf: hash
G='itktf/itktfRegression.cxx'
s=open(R+G).read()
i=s.index('  // make one big string of all the arguments'); j=s.index('  // the file goes in the root path wherever')
s=s[:i]+'''  for (const std::string &arg : m_ArgumentList)
    for (char c : arg)
      hash = static_cast<uint16_t>(static_cast<uint16_t>((hash << 7) | (hash >> 9)) ^ c);

'''+s[j:]
open(R+G,'w').write(s)
T='itktf/itktfDifferenceImageFilter.txx'
s=open(R+T).read()
i=s.index('        // If center pixel isn\'t good'); j=s.index('        // Check if difference is above threshold.')
s=s[:i]+'''        const ScalarRealType limit2 = m_MagnitudeThreshold * m_MagnitudeThreshold;
        const unsigned int neighborhoodSize = test.Size();
        unsigned int i = 0;
        while ( minimumMagnitude2 > limit2 && i < neighborhoodSize )
          {
          const RealType difference = static_cast<RealType>(c) - test.GetPixel(i++);
          const ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
          if ( magnitude2 < minimumMagnitude2 )
            {
            minimumDifference = difference;
            minimumMagnitude2 = magnitude2;
            }
          }

'''+s[j:]
s=s.replace('''  m_TotalMagnitude = std::accumulate( m_ThreadMagnitudeSum.begin(), m_ThreadMagnitudeSum.end(), NumericTraits<ScalarRealType>::Zero );
  m_NumberOfPixelsWithDifferences = std::accumulate( m_ThreadNumberOfPixels.begin(), m_ThreadNumberOfPixels.end(), NumericTraits<SizeValueType>::Zero );''','''  m_NumberOfPixelsWithDifferences = 0;
  m_TotalMagnitude = NumericTraits<ScalarRealType>::Zero;
  for ( size_t k = m_ThreadNumberOfPixels.size(); k-- > 0; )
    {
    m_NumberOfPixelsWithDifferences += m_ThreadNumberOfPixels[k];
    m_TotalMagnitude += m_ThreadMagnitudeSum[k];
    }''')
open(R+T,'w').write(s)
def rd(f): return open(R+f,newline='').read()
def wr(f,s): open(R+f,'w',newline='').write(s)
# DifferenceVisitor: helper for pairs
f='itktf/itktfDifferenceVisitor.cxx'; s=rd(f)
for word,bn,tn in (('Size','Baseline Size ','Test ImageSize '),('Spacing','Baseline Spacing ','Test Spacing '),('Origin','Baseline Origin ','Test Origin ')):
    m=re.search(r'    // output two measurements of the image (?:sizes\'|spacing)\n    testutil::StringText statusMeasurement;\n    std::ostringstream strstream;\n    strstream << baseline%s;.*?strstream << test%s;.*?<< std::endl; *\n'%(word,word),s,re.S); assert m,word
    s=s.replace(m.group(0),'    PrintPair( this->GetOutStream(), "%s", baseline%s, "%s", test%s, testMeasurement.GetAttributeName() );\n'%(bn,word,tn,word))
s=s.replace('''// function was taken from itk's''','''namespace
{
// one measurement for each side
template< typename T >
void PrintPair( std::ostream &os, const char *baselineName, const T &baselineValue, const char *testName, const T &testValue, const std::string &name )
{
  const T * const values[2] = { &baselineValue, &testValue };
  const char * const names[2] = { baselineName, testName };
  for ( int i = 0; i < 2; ++i )
    {
    std::ostringstream text;
    text << *values[i];
    testutil::StringText measurement;
    measurement.SetContent( text.str() );
    measurement.SetAttributeName( names[i] + name );
    os << measurement << std::endl;
    }
}
}

// function was taken from itk's''',1)
i=s.index('  fileutil::PathName diffName ='); j=s.index('  return (status > numberOfPixelsTolerance)')
s=s[:i]+'''  const ImageType * const pictures[] = { diff->GetOutput(), baselineReader->GetOutput(), testReader->GetOutput() };
  const char * const endings[] = { ".diff.png", ".base.png", ".test.png" };
  for ( int k = 0; k < 3; ++k )
    {
    fileutil::PathName name( ITK_REGRESSION_OUTPUT );
    name.Append( testImageFilename.Tail().GetPathName() + endings[k] );
    ImageThing<ImageType>( pictures[k], name, testMeasurement.GetAttributeName(), this->GetOutStream() );
    }

'''+s[j:]
wr(f,s)
# FilterWatcher
f='itktf/itktfFilterWatcher.h'; s=rd(f)
i=s.index('    itk::SimpleMemberCommand<FilterWatcher>::Pointer startFilterCommand;'); j=s.index('  virtual void ShowProgress()')
s=s[:i]+'''    this->Watch(itk::AbortEvent(), &FilterWatcher::ShowAbort);
    this->Watch(itk::StartEvent(), &FilterWatcher::StartFilter);
    this->Watch(itk::IterationEvent(), &FilterWatcher::ShowIteration);
    this->Watch(itk::EndEvent(), &FilterWatcher::EndFilter);
    this->Watch(itk::ProgressEvent(), &FilterWatcher::ShowProgress);
  }

  virtual ~FilterWatcher()
  {
    while (!m_Tags.empty())
      {
      m_Process->RemoveObserver(m_Tags.back());
      m_Tags.pop_back();
      }
  }

'''+s[j:]
i=s.index('  unsigned long m_StartTag;'); j=s.index('};',i)
s=s[:i]+'''  template <class TEvent>
  void Watch(const TEvent &event, void (FilterWatcher::*callback)())
  {
    itk::SimpleMemberCommand<FilterWatcher>::Pointer command = itk::SimpleMemberCommand<FilterWatcher>::New();
    command->SetCallbackFunction(this, callback);
    m_Tags.push_back(m_Process->AddObserver(event, command));
  }

  std::vector<unsigned long> m_Tags;
'''+s[j:]
s=s.replace('#include <time.h>','#include <time.h>\n#include <vector>',1)
wr(f,s)
# image compare: one reader of values
f='itktf/itktfImageCompare.cxx'; s=rd(f)
i=s.index("        if ( argvi == \"--intensityTolerance\" )"); j=s.index("        else\n          {          \n          std::cerr << \"Unknown")
s=s[:i]+'''        const char *value = i + 1 < argc ? argv[i + 1] : 0;
        if ( argvi == "--radiusTolerance" || argvi == "--numberOfPixelTolerance" )
          {
          unsigned int &target = argvi == "--radiusTolerance" ? radiusTolerance : numberOfPixelTolerance;
          if ( !value || !ToNumber( value, target ) )
            {
            std::cerr << "Expected unsigned int to follow " << argvi << std::endl;
            return EXIT_FAILURE;
            }
          ++i;
          }
        else if ( argvi == "--intensityTolerance" )
          {
          if ( !value || !ToNumber( value, intensityTolerance ) )
            {
            std::cerr << "Expected double to follow " << argvi << std::endl;
            return EXIT_FAILURE;
            }
          ++i;
          }
'''+s[j:]
wr(f,s)
# pipe
f='TestingFramework/tfPipeToXML.cxx'; s=rd(f)
s=s.replace('const char **cmd = new const char*[argc];','std::vector<const char *> cmd( argc );').replace('itksysProcess_SetCommand(kp, cmd);','itksysProcess_SetCommand(kp, &cmd[0]);').replace('#include <stdexcept>','#include <stdexcept>\n#include <vector>',1)
s=s.replace('''    while((p = itksysProcess_WaitForData(kp, &data, &length, 0 )))
      {
      // what goes to the standard error is not part of the output
      if ( p == itksysProcess_Pipe_STDOUT )
        outputString += std::string( data, length );
      }
''','''    do
      {
      p = itksysProcess_WaitForData(kp, &data, &length, 0 );
      if ( p != itksysProcess_Pipe_STDOUT )
        continue;
      outputString.append( data, length );
      } while ( p != 0 );
''')
wr(f,s)
# composites
f='itktf/itktfRegression.h'; s=rd(f)
pat=re.compile(r'''    int ret = 0;
    for \(unsigned int i = 0; i < Dimension; \+\+i\) 
      \{
      std::ostringstream nameWithIndex;
      nameWithIndex << name << "_" << i;
      ret \+= this->MeasurementNumeric(\w+)\( (\w+)\[i\], nameWithIndex.str\(\), tolerant\);
      \}
    return ret;''')
assert len(pat.findall(s))==5
s=pat.sub(r'''    return this->Measure\1s( \2, Dimension, name, tolerant );''',s)
s=s.replace('''  template <unsigned int Dimension>
  int MeasurementInsightSize(''','''  template <class TArray>
  int MeasureIntegers( const TArray &values, unsigned int n, const std::string &name, bool tolerant )
  {
    int different = 0;
    for ( unsigned int k = 0; k != n; k++ )
      {
      different += this->MeasurementNumericInteger( values[k], this->ComponentName( name, k ), tolerant );
      }
    return different;
  }

  template <class TArray>
  int MeasureDoubles( const TArray &values, unsigned int n, const std::string &name, bool tolerant )
  {
    int different = 0;
    for ( unsigned int k = 0; k != n; k++ )
      {
      different += this->MeasurementNumericDouble( values[k], this->ComponentName( name, k ), tolerant );
      }
    return different;
  }

  static std::string ComponentName( const std::string &name, unsigned int k )
  {
    std::ostringstream text;
    text << name << "_" << k;
    return text.str();
  }

  template <unsigned int Dimension>
  int MeasurementInsightSize(''',1)
i=s.index('    unsigned long status = 0;\n    \n    \n    if ( region'); j=s.index("      return ( status < numberOfPixelsTolerance )")
s=s[:i]+'''    const bool whole = region == typename ImageType::RegionType();
    if ( whole &&
         baselineImage->GetLargestPossibleRegion().GetSize() != testImage->GetLargestPossibleRegion().GetSize() )
      {
      return itk::NumericTraits<unsigned long>::max();
      }

    typedef itk::ExtractImageFilter<ImageType, ImageType> ExtractImageFilter;
    typename ExtractImageFilter::Pointer extractor;
    typedef itk::tf::DifferenceImageFilter<ImageType,ImageType> DiffType;
    typename DiffType::Pointer diff = DiffType::New();
    if ( whole )
      {
      diff->SetValidInput( baselineImage );
      }
    else
      {
      extractor = ExtractImageFilter::New();
      extractor->SetInput( baselineImage );
      extractor->SetExtractionRegion( region );
      diff->SetValidInput( extractor->GetOutput() );
      }
    diff->SetToleranceRadius( radiusTolerance );
    diff->SetMagnitudeThreshold( intensityTolerance );
    diff->SetTestInput( testImage );
    diff->UpdateLargestPossibleRegion();
    const unsigned long status = diff->GetNumberOfPixelsWithDifferences();

'''+s[j:]
wr(f,s)
# visitors
f='TestingFramework/tfMeasurementVisitor.cpp'; s=rd(f)
i=s.index('    NumericData *baseline;\n'); j=s.index('}\n\n}',i)
s=s[:i]+'''    NumericData * const baseline = dynamic_cast<NumericData*>(this->_baseline);
    const double tolerance = this->GetTolerance();
    this->compareResults = baseline != 0 &&
      ( tolerance == 0.0 ? *baseline == m : baseline->IsEqualTolerant(m, tolerance) );
  }

}
'''
wr(f,s)
# diff
f='TestingFramework/tfDiff.cpp'; s=rd(f)
i=s.index('    /// \\brief prints an edit list'); j=s.index('    /// \\brief segments the strings')
s=s[:i]+'''    void PrintRange(ptrdiff_t first, ptrdiff_t n, std::ostream &os) {
      os << first + 1;
      if (n > 1)
	os << "," << first + n;
    }

    void PrintEditList(const list<edit> &l, const fumoffu &data, std::ostream &os) {
      for (const edit &e : l) {
	const char op = !e.inserted ? 'd' : !e.deleted ? 'a' : 'c';
	if (op == 'a')
	  os << e.line0;
	else
	  PrintRange(e.line0, e.deleted, os);
	os << op;
	PrintRange(e.line1, e.inserted, os);
	os << endl;
	if (op != 'a')
	  PrintLines("< ", 0, e.line0, e.deleted, data, os);
	if (op == 'c')
	  os << "----\\n";
	if (op != 'd')
	  PrintLines("> ", 1, e.line1, e.inserted, data, os);
      }
    }

'''+s[j:]
wr(f,s)
