From c8c0196a5820db246da6253421dd8daefdda7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 01/54] fix: escape markup in the attribute values of printed
 measurements

---
 TestingFramework/tfMeasurement.cpp | 23 +++++++++++++++++------
 TestingFramework/tfMeasurement.h   |  7 +++++++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..5ae2673 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -141,6 +141,17 @@ namespace testutil {
   }
 
 
+  std::string Measurement::EscapeAttributeValue(const std::string &str) const {
+    if (!this->GetApplyEscapeSequences())
+      return str;
+    std::string result = this->ApplyEscapeSequences(str);
+    std::string::size_type i = 0;
+    while ((i = result.find('"', i)) != std::string::npos)
+      result.replace(i, 1, "&quot;");
+    return result;
+  }
+
+
   void Measurement::Print(std::ostream &os) const {
     this->PrintStartTag(os);
     this->PrintContent(os);
@@ -317,8 +328,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->EscapeAttributeValue(this->GetAttributeName()) 
+       << "\" type=\"" << this->EscapeAttributeValue(this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +496,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << this->EscapeAttributeValue(this->GetAttributeName()) 
+       << "\" type=\"" << this->EscapeAttributeValue(this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << this->EscapeAttributeValue(this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << this->EscapeAttributeValue(this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..7848d6f 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -129,6 +129,13 @@ namespace testutil {
 
   protected:
 
+    /// \brief converts an attribute value to what is printed between
+    /// double quotes
+    ///
+    /// when GetApplyEscapeSequences is true ApplyEscapeSequences is
+    /// applied, and any double quote is replaced with &quot;
+    std::string EscapeAttributeValue(const std::string &str) const;
+
     /// \brief helper function to print the starting XML tag
     virtual void PrintStartTag(std::ostream &os) const = 0;
 
-- 
2.43.0


From 4e88ac46daf4012e47dfc013a37755e7c0897d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 02/54] fix: keep the whole range of a long in integer
 measurements

---
 TestingFramework/tfMeasurement.cpp | 6 +++---
 TestingFramework/tfMeasurement.h   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 5ae2673..7fc5ba8 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -547,14 +547,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 7848d6f..6444664 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -480,8 +480,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From 2f4469c44206c3e48af8898e4606a9ff1c7c5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 03/54] fix: compare numbers tolerantly without overflow of
 their type

---
 TestingFramework/tfMeasurement.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 6444664..f957707 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -449,11 +449,14 @@ namespace testutil {
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
-      return  temp <= tol*std::abs(lm) ||
-	temp <= tol*std::abs(rm) || 
-	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-	 std::abs(rm) < std::numeric_limits<T>::epsilon());
+      // wide enough for the difference and the magnitude of any two values
+      const long double l = std::abs(static_cast<long double>(lm));
+      const long double r = std::abs(static_cast<long double>(rm));
+      const long double temp = std::abs(static_cast<long double>(lm) - static_cast<long double>(rm));
+      return  temp <= tol*l ||
+	temp <= tol*r || 
+	(l < std::numeric_limits<T>::epsilon() &&
+	 r < std::numeric_limits<T>::epsilon());
     }
     
   private:
-- 
2.43.0


From 4e70e3ee8c15082ed985d7de6121dadc7e928eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 04/54] fix: match a content that is not a finite number only
 with itself

---
 TestingFramework/tfMeasurement.cpp | 12 ++++------
 TestingFramework/tfMeasurement.h   | 36 +++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 7fc5ba8..ce72ef2 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -548,9 +548,8 @@ namespace testutil {
   }
  
   long IntegerNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
     long v;
-    iss >> v;
+    this->ReadValue(v);
     return v;    
   }
 
@@ -565,9 +564,8 @@ namespace testutil {
   }
  
   float FloatNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
     float v;
-    iss >> v;
+    this->ReadValue(v);
     return v;    
   }
 
@@ -583,9 +581,8 @@ namespace testutil {
   }
  
   double DoubleNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
     double v;
-    iss >> v;
+    this->ReadValue(v);
     return v;    
   }
 
@@ -601,9 +598,8 @@ namespace testutil {
   }
  
   bool BooleanNumeric::GetValue(void) const {
-    std::istringstream iss(this->GetContent());
     bool v;
-    iss >> v;
+    this->ReadValue(v);
     return v;    
   }
 
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index f957707..77cdd60 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <limits>
+#include <sstream>
 
 namespace testutil {
   
@@ -446,13 +447,30 @@ namespace testutil {
 
   protected:
 
+    /// reads the content as one finite number, returns false if it is not
     template <class T>
-    static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
+    bool ReadValue(T &v) const {
+      std::istringstream iss(this->GetContent());
+      v = T();
+      return (iss >> v) && (iss >> std::ws).eof();
+    }
+
+    /// a content which is not a finite number is only equal to itself
+    template <class T>
+    static bool _IsContentEqualTolerant(const NumericData &lm, const NumericData &rm, double tol) {
+      long double l, r; // so that no T is rounded or out of range
+      if (lm.GetContent() == rm.GetContent())
+	return true;
+      return lm.ReadValue(l) && rm.ReadValue(r) && _IsEqualTolerant<T>(l, r, tol);
+    }
+
+    template <class T>
+    static bool _IsEqualTolerant(const long double &lm, const long double &rm, double tol) {
       tol = std::abs(tol);
       // wide enough for the difference and the magnitude of any two values
-      const long double l = std::abs(static_cast<long double>(lm));
-      const long double r = std::abs(static_cast<long double>(rm));
-      const long double temp = std::abs(static_cast<long double>(lm) - static_cast<long double>(rm));
+      const long double l = std::abs(lm);
+      const long double r = std::abs(rm);
+      const long double temp = std::abs(lm - rm);
       return  temp <= tol*l ||
 	temp <= tol*r || 
 	(l < std::numeric_limits<T>::epsilon() &&
@@ -490,7 +508,7 @@ namespace testutil {
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
       if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	return _IsContentEqualTolerant<long>(*this, *m, tol);
       else 
 	return false;
     }
@@ -528,7 +546,7 @@ namespace testutil {
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const FloatNumeric *m = dynamic_cast<const FloatNumeric*>(&rm);
       if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	return _IsContentEqualTolerant<float>(*this, *m, tol);
       else 
 	return false;
     }
@@ -564,7 +582,7 @@ namespace testutil {
      virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
        const DoubleNumeric *m = dynamic_cast<const DoubleNumeric*>(&rm);
        if (m)
-	 return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	 return _IsContentEqualTolerant<double>(*this, *m, tol);
        else 
 	return false;
     }
@@ -601,8 +619,10 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const BooleanNumeric *m = dynamic_cast<const BooleanNumeric*>(&rm);
+       bool l, r;
        if (m)
-	 return this->GetValue() ==  m->GetValue();
+	 return this->GetContent() == m->GetContent() ||
+	   (this->ReadValue(l) && m->ReadValue(r) && l == r);
        else 
 	 return false;
     }
-- 
2.43.0


From 45be9e85997ccd6ab42d0fb9a6785fd06421f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 05/54] fix: do not read before or behind the lines in the
 diff's edit list

---
 TestingFramework/tfDiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..7527c44 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
-- 
2.43.0


From 92ba8af54fac14bfbec81495f8666a3e4d6cbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 06/54] fix: keep the parity of the diff's forward search
 bounds

The forward search did not widen its bounds as the backward search does, so
longer edits than needed were found.
---
 TestingFramework/tfDiff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 7527c44..44f83b1 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -157,8 +157,8 @@ namespace testutil {
 	}
 	// increment, after the end need to make sure we still
 	// alternate even and odd, but that must be done later
-	if (fmin > dmin) --fmin;
-	if (fmax < dmax) ++fmax;
+	--fmin;
+	++fmax;
 	
 	
 	// backwards search of edit space one iteration on valid diagonals 
-- 
2.43.0


From d0577c58280b94e2242b3ec7edf25b272234037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 07/54] fix: stop at the end of the hash table when looking for
 a line

---
 TestingFramework/tfDiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 44f83b1..5589b54 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end() && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From 23fe12896313d95e9e3273eee98be880719dee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 08/54] fix: look characters above 127 up inside the base64
 table

---
 TestingFramework/tfBase64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..f9a32ea 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -132,7 +132,7 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;    
     bool padded = false;
 
     while (i < input.length()) {	  
@@ -184,7 +184,7 @@ namespace testutil {
     int byteNumber = 0; // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
     char buffer[4];
-    char byte;
+    unsigned char byte;
     bool padded = false;
 	
 
-- 
2.43.0


From 2b8dc0aa191e4bf4af9b102296744199107b3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 09/54] fix: break every base64 line after 72 characters and
 add nothing at the end

---
 TestingFramework/tfBase64.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index f9a32ea..b95bb0e 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -84,7 +84,7 @@ namespace testutil {
   std::string Base64::Encode(const void *_input, size_t numBytes) {
     std::string::size_type numChars = ((numBytes+2)/3)*4;
     if (this->addNewLines)	  
-      numChars += numChars/72;
+      numChars += numChars ? (numChars-1)/72 : 0;
     std::string output(numChars, '\0');
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
@@ -106,10 +106,12 @@ namespace testutil {
       output[i++] = base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
+      numBytes -= 3;
+
+      // a line has 72 chars and the new line, which the last one does without
+      if (this->addNewLines && numBytes && (i+1)%73 == 0)
 	output[i++] = '\n';
 	  
-      numBytes -= 3;
     }
 	
     // pad the output
-- 
2.43.0


From e1d013ed30936e0c954d6d90d8bc49acba4053fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 10/54] fix: count the decoded bytes and check the padding in
 IsBase64

The number of digits was returned instead of the number of bytes which will
be decoded, and groups without two digits before the padding were accepted.
---
 TestingFramework/tfBase64.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index b95bb0e..165188f 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -143,6 +143,9 @@ namespace testutil {
       if (base64bits[ptrdiff_t(byte)] <= 64) {
 	    
 	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	  // one or two pads may only follow two or three digits
+	  if (byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -152,7 +155,9 @@ namespace testutil {
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
 	  byteNumber++;
-	  bytesRead++;
+	  // all but the first digit of a group complete a byte
+	  if (byteNumber > 1)
+	    bytesRead++;
 	}
 
 	if (byteNumber == 4){
-- 
2.43.0


From 58317a4325e846cda306bce4a85f7628b285414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 11/54] fix: decode padded base64

Decode threw for every padded input, wrote a byte too many and returned a
wrong number of bytes; padding without digits was not reported.
---
 TestingFramework/tfBase64.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 165188f..92afc86 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -189,7 +189,6 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
     char buffer[4];
     unsigned char byte;
     bool padded = false;
@@ -206,20 +205,20 @@ namespace testutil {
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -228,7 +227,6 @@ namespace testutil {
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
 	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
-	  bytesRead++;
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -240,7 +238,6 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
@@ -260,7 +257,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
-- 
2.43.0


From 30a09cf3655852cc7592b7140bb40a4f92b425e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 12/54] fix: a space is white space in base64

---
 TestingFramework/tfBase64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 92afc86..940c1a2 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -279,7 +279,7 @@ namespace testutil {
   const unsigned char Base64::base64bits[256] = {
     255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
-    255,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
+    254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
     255,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14, // 80
      15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,255,255,255,255,255, // 96     
-- 
2.43.0


From b9799b8f298fe3063c0b3bbbb954e09fe0ba731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 13/54] fix: return an empty path when the search finds no file

The last candidate was returned instead, although it is no regular file.
---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From e2e6c9574b20a6588666b859c3e1bcdfc8b4fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 14/54] fix: return the current directory whatever its length

A path longer than the buffer, or any other failure of getcwd, left the buffer
uninitialized.
---
 FileUtilities/FileUtilities.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..37b3aa5 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -47,7 +47,9 @@
 
 #include <stdexcept>
 #include <stdlib.h>
+#include <errno.h>
 #include <iostream> 
+#include <vector>
 
 #define MAX_PATH 1024
 
@@ -97,9 +99,14 @@ namespace fileutil {
     struct stat s;
 
     if (!stat(".", &s)) {
-      char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      std::vector<char> currentName(MAX_PATH);
+      // the buffer has to grow for long paths
+      while (!getcwd(&currentName[0], currentName.size())) {
+	if (errno != ERANGE)
+	  return PathName(result);
+	currentName.resize(currentName.size()*2);
+      }
+      result = &currentName[0];
     }
     return PathName(result);
   }
-- 
2.43.0


From 641b79db6409aa859760204daa50fe5b23463665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 15/54] fix: do not ignore differences and failures in the
 result of a run

The result of a run with the expected return was 0 without looking at the
differences if the baseline could not be found any more at the end, and for any
failure while recording with an expected return of -1.
---
 TestingFramework/tfRegressionTest.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..cafc489 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -307,12 +307,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->BeginMeasurement();
 
       
-      ret = this->Test(argc, argv);
+      const int testRet = this->Test(argc, argv);
 
 
       this->EndMeasurement();
 
       this->inputUnmatched--;
+      ret = testRet; // only a complete run has the result of the test
     } 
     CATCH_STDEXCEPTION(std::length_error)
       CATCH_STDEXCEPTION(std::domain_error)
@@ -333,14 +334,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
+    else
       {
+      // not zero if there were differences or if the run is incomplete
       return this->inputUnmatched;
       }
-    else 
-      {
-      return EXIT_SUCCESS;
-      }
 
   }
 
-- 
2.43.0


From 333666957ce7be208c54bbb3ae87d10daeca382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 16/54] fix: do not loop forever on an option without a value

A last -I, -O, -R or -P was neither removed nor skipped.
---
 TestingFramework/tfRegressionTest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index cafc489..1333f57 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -281,6 +281,9 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         break;
         }
       
+      // an option without a value is left to the test
+      if (i == argc-1)
+        break;
       }
 
     if (infname)
-- 
2.43.0


From ce78103fa939e9a4a84842a938c9a2982e72340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 17/54] fix: fail if the named output file is not writable

The option was dropped with a message, so that the run went on without the
output file and succeeded.
---
 TestingFramework/tfRegressionTest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 1333f57..936e812 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -213,8 +213,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           fileutil::PathName pn(outfname);
 	  if (pn.IsFile() && !pn.IsWritable()) 
             {
-	    std::cerr << "unable to write to file \"" << outfname << "\"!" << std::endl;
-	    outfname = 0;
+	    throw std::runtime_error(std::string("unable to write to file \"") + outfname + "\"!");
             }
 
 	  for (int j = i; j+2 < argc; ++j)
-- 
2.43.0


From d8bc37a252fb50ac1213c661a48b48c6e1ec0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 18/54] fix: read a baseline measurement without a type

A DartMeasurement element without the type attribute ended in a null pointer.
It is now read as one of unknown type is.
---
 TestingFramework/tfRegressionTest.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 936e812..72b1322 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -639,12 +639,13 @@ namespace {
 	    if (std::string(attr[i]) == "type") {
 	      std::string str = attr[i+1];
 	      dm = CreateDataMeasurement(attr[i+1]);
-	      if (!dm) {
+	      if (!dm) 
 		std::cerr << "XML: unknow dart measurement type \"" << attr[i+1] << "\"" << std::endl;		
-		dm = new PlainText;
-	      }
 	    }
 	  }
+	  // unknown or missing type
+	  if (!dm) 
+	    dm = new PlainText;
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
-- 
2.43.0


From f4565b94ab7e7c64057540b01c4130d57ab965a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 19/54] fix: ignore nested elements in a baseline

An element inside of a measurement, or inside of an unknown element with text,
ran into an assertion, or removed the measurement around it.
---
 TestingFramework/tfRegressionTest.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 72b1322..8cb69a5 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -621,9 +621,6 @@ namespace {
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
-
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
 	  // error, expected output
@@ -698,18 +695,18 @@ namespace {
     void end(void *data, const char *el) { 
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data); 
 
-      if (pd.m && pd.depth == 2) {
-	//	pd.data += '\0';
-	pd.m->SetContent(pd.data);	
-	pd.measurements.push_back(pd.m);
-      } else if (pd.m) {
-	// may not be posible, but let's make sure we keep things clean
-	delete pd.m;
-      }
+      // elements which are too deep do not end the measurement around them
+      if (pd.depth == 2) {
+	if (pd.m) {
+	  //	pd.data += '\0';
+	  pd.m->SetContent(pd.data);	
+	  pd.measurements.push_back(pd.m);
+	}
 
-      pd.m = 0;
+	pd.m = 0;
       
-      pd.data.resize(0);
+	pd.data.resize(0);
+      }
 
       --pd.depth;
     }
-- 
2.43.0


From 41a9567382227f2b5a355e51b19916c77356cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 20/54] fix: report a malformed baseline instead of aborting

A parse error inside of a measurement ran into an assertion, and the parser and
the measurements read so far were never freed.
---
 TestingFramework/tfRegressionTest.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 8cb69a5..d3847c5 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -610,7 +610,12 @@ namespace {
 
     struct XMLParseData {
       XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      ~XMLParseData(void) {
+	// what is left if the parsing did not complete
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
@@ -723,7 +728,12 @@ namespace {
   void RegressionTest::ReadXMLInput(void) {
     static const size_t BUFFSIZE = 1024;
     char *buff;
-    XML_Parser parser;
+    struct Parser {
+      Parser(void) : parser(XML_ParserCreate("US-ASCII")) {}
+      ~Parser(void) { if (parser) XML_ParserFree(parser); }
+      operator XML_Parser(void) const { return parser; }
+      XML_Parser parser;
+    } parser; // freed on any error too
     std::istream::pos_type l, m, size;
     XMLParseData pd;
 
@@ -737,8 +747,6 @@ namespace {
     this->GetInStream().seekg(0, std::ios::beg);
 
 
-    parser = XML_ParserCreate("US-ASCII");
-
     if (!parser)       
       throw std::bad_alloc();
     
@@ -777,7 +785,6 @@ namespace {
 	break;
     }
 
-    XML_ParserFree(parser);
     this->Input.swap(pd.measurements);
   }
   
-- 
2.43.0


From ffe71444a45ee42318b9fb0a0701649343fd3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 21/54] fix: set the content of a measurement with its data

Without an encoding the content kept what it was before, which copies and
printing then used instead of the data.
---
 TestingFramework/tfMeasurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index ce72ef2..750dcaf 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -461,6 +461,9 @@ namespace testutil {
     }
 
     if (this->GetAttributeEncoding() == "none") {
+
+      // the data is the content
+      this->SetContent(std::string(static_cast<const char*>(this->data), this->dataSize));
       
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
-- 
2.43.0


From d7c1c97e7c00f5e7110b95770c6e74e189558370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 22/54] fix: copy the data before the old is freed

Setting the data of a measurement with what its GetContentAsData returned read
freed memory.
---
 TestingFramework/tfMeasurement.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 750dcaf..cc9ac89 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -445,14 +445,17 @@ namespace testutil {
   }
 
   void DataMeasurement::SetContentAsData(const void *_data, size_t size) {
-    this->DeleteContentAsData();
-    this->data = malloc(size);
+    void *copy = malloc(size);
 
-    if (!this->data) 
+    if (!copy) 
       throw std::bad_alloc();
-    this->dataSize = size;
 
-    memcpy(this->data, _data, size);
+    // _data may be from GetContentAsData
+    memcpy(copy, _data, size);
+
+    this->DeleteContentAsData();
+    this->data = copy;
+    this->dataSize = size;
     
     // encode the data to be moved into the content
     if (this->GetAttributeCompression() != "none") {
-- 
2.43.0


From 245c58ee0ac0a08ee9595d692b15a805d35e1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 23/54] fix: decode the content again when the encoding of a
 measurement changes

The data decoded with the previous encoding or compression was returned.
---
 TestingFramework/tfMeasurement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index cc9ac89..1efa43c 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -364,6 +364,7 @@ namespace testutil {
 
   void DataMeasurement::SetAttributeEncoding(const std::string &_encoding) {
     this->encoding = _encoding;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeEncoding(void) const {
@@ -376,6 +377,7 @@ namespace testutil {
   
   void DataMeasurement::SetAttributeCompression(const std::string &_compression) {
     this->compression = _compression;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeCompression(void)const {
-- 
2.43.0


From d71915c437c18ad67aa38fee291a6439d85e38dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 24/54] fix: free the cached data of a measurement when it is
 assigned

---
 TestingFramework/tfMeasurement.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 1efa43c..412db93 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -350,8 +350,7 @@ namespace testutil {
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
-- 
2.43.0


From 81639d63668539788885daa79eec795a4df46fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 25/54] fix: a file that can not be read never matches

---
 TestingFramework/tfMeasurement.cpp | 4 +++-
 TestingFramework/tfMeasurement.h   | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 412db93..bec0a71 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -253,7 +253,7 @@ namespace testutil {
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
-      return new PlainText();
+      return 0;
     }
       
 
@@ -315,6 +315,8 @@ namespace testutil {
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
     DataMeasurement *dm = Load();
+    if (!dm)
+      return false; // a file which can not be read has no contents to be equal
     bool v = (m == *dm); // switch so if the are both file we can do it again
     delete dm;
 
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 77cdd60..4293010 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -219,7 +219,8 @@ namespace testutil {
     /// \brief loads the file into a DataMeasurement
     ///
     /// This function loads the data into memory and the copies it
-    /// into the DataMeasurement object. 
+    /// into the DataMeasurement object. If the file can not be read 0 is
+    /// returned.
     ///
     /// \note the user must delete this object with delete to free the memory.
     DataMeasurement *Load(void);
-- 
2.43.0


From e36114ea9ed2e0b1a54856f6289dab6d94505f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 26/54] fix: do not allocate the size of a file that can not be
 read

---
 TestingFramework/tfMeasurement.cpp | 46 +++++++-----------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index bec0a71..7f6cd67 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -248,8 +248,7 @@ namespace testutil {
       mode |= std::ios::binary;// this actually doesn't matter since we read with read
 
     std::ifstream is(this->GetFileName().c_str(), mode);
-    std::ifstream::pos_type l, m, size;
-    char *buff;
+    std::string buff;
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
@@ -257,30 +256,16 @@ namespace testutil {
     }
       
 
-    // get the size of the file
-    l = is.tellg();
-    is.seekg(0, std::ios::end);
-    m = is.tellg();
-    size = m-l;
-    is.seekg(0, std::ios::beg);
-
-
-    buff = static_cast<char*>(malloc(size));
-    if (!buff)
-      throw std::bad_alloc();
+    // slow way to read but need the conversion of text, and the size of
+    // what can be opened (e.g. a directory) may not be known
+    assert(sizeof(char) == 1);
+    char c=0;
+    while (is.get(c))
+      buff += c;
 
-    if (binary) {
-      is.read(buff, size);
-    } else {
-      assert(sizeof(char) == 1);
-      // slow way to read but need the conversion, and it may be better than rescanning the input for getline
-      char *tbuff = buff;
-      char c;
-      size = 0;
-      while (is.get(c)) {
-	*tbuff++ = c;
-	size += 1;
-      }	
+    if (!is.eof() || is.bad()) {
+      std::cerr << "failure reading file \"" << this->GetFileName() << "\"." << std::endl;
+      return 0;
     }
 
     DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
@@ -288,24 +273,15 @@ namespace testutil {
       std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
       dm = new PlainText();
     }
-    dm->SetContentAsData(buff, size);
+    dm->SetContentAsData(buff.data(), buff.size());
     dm->SetAttributeName(this->GetAttributeName());
 
 
-    char c=0;
-    is.get(c);	// this should cause and EOF
-
     ios_base::iostate state = is.exceptions();
     if (state & ios_base::badbit) cerr << "throws for bad";
     if (state & ios_base::failbit) cerr << "throws for fail";
     if (state & ios_base::eofbit) cerr << "throws for eof";
 
-    if (!is.eof() || is.bad()) {
-      throw std::runtime_error("failure reading file");
-    }
-    
-
-    free(buff);
     return dm;
     
   }
-- 
2.43.0


From 6f7e66201a26c2d4ef6fc10a9a83fa6b25d4e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 27/54] fix: measure only the standard output of a command

---
 TestingFramework/tfPipeToXML.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..e5136b6 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -47,7 +47,9 @@ protected:
     int p;
     while((p = itksysProcess_WaitForData(kp, &data, &length, 0 )))
       {
-      outputString += std::string( data, length );
+      // what goes to the standard error is not part of the output
+      if ( p == itksysProcess_Pipe_STDOUT )
+        outputString += std::string( data, length );
       }
   
     itksysProcess_WaitForExit(kp, 0);
-- 
2.43.0


From e65579938f141210516866c0c736bdacea23d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 28/54] fix: a command that did not exit is never a success

---
 TestingFramework/tfPipeToXML.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index e5136b6..ef50f6e 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -1,6 +1,7 @@
 #include "itksys/Process.h"
 
 #include <iostream>
+#include <stdexcept>
 
 #include "TestingFramework/tfRegressionTest.h"
 
@@ -34,6 +35,7 @@ protected:
     char* data = 0;
     int length = 0;
     int ret = -1;
+    bool exited = false;
 
     std::string outputString;
 
@@ -69,6 +71,7 @@ protected:
         break;
       case itksysProcess_State_Exited:
         ret = itksysProcess_GetExitValue(kp); 
+        exited = true;
         break;
       case itksysProcess_State_Killed:
         std::cerr << "Child was killed by parent." << std::endl; 
@@ -86,6 +89,9 @@ protected:
     
     itksysProcess_Delete(kp);
 
+    // there is no return value which could be the expected one
+    if ( !exited )
+      throw std::runtime_error( "the command did not exit" );
     
     return ret;
 
-- 
2.43.0


From 969e6ce19566d5dc655d998c853855c4bc3593fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 29/54] fix: do not write messages into the document of
 tfPipeToXML

---
 TestingFramework/tfPipeToXML.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index ef50f6e..12cd4fa 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -19,17 +19,18 @@ protected:
   {
     // we expect the input arguments to be tfPipeToXML cmdtorun arg1
     // ... argN
-    std::cout << "Redirecting output from: \"";
+    // the standard output may be the document
+    std::cerr << "Redirecting output from: \"";
     const char **cmd = new const char*[argc];
     for ( int i = 1; i < argc; ++i ) 
       {
       cmd[i-1] = argv[i];
       if (i != 1)
-        std::cout << " ";
-      std::cout << argv[i];      
+        std::cerr << " ";
+      std::cerr << argv[i];      
       }
     cmd[argc - 1] = 0;
-    std::cout << "\"" << std::endl;
+    std::cerr << "\"" << std::endl;
 
     
     char* data = 0;
-- 
2.43.0


From fb12341034b683b83742531027d19ffc51c417e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 30/54] fix: fail if the output could not be written

---
 TestingFramework/tfRegressionTest.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index d3847c5..4397765 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -175,10 +175,12 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
   }
     
   void RegressionTest::EndMeasurement(void) {
+    bool written = true;
     
-    if (!this->GetCompareMode()) 
+    if (!this->GetCompareMode()) {
       this->WriteXMLOutputEnd();
-    else
+      written = !this->GetOutStream().fail();
+    } else
       this->ReadXMLInputFree();
 
     if (this->os) {
@@ -191,7 +193,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->is = 0;
     }
 
-    
+    if (!written)
+      throw std::runtime_error("unable to write the complete output!");
     
   }
 
-- 
2.43.0


From f96c2d08c7a1b1f8c87d2c6ca344d71ee75a563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 31/54] fix: write a well-formed comment whatever the name of
 the host

---
 TestingFramework/tfRegressionTest.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 4397765..08f59b6 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -599,7 +599,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     gethostname(hostname, 256);
 #endif
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
-    this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
+    // a double hyphen is not allowed in a comment
+    std::string host(hostname);
+    for (std::string::size_type i; (i = host.find("--")) != std::string::npos; )
+      host.replace(i, 2, "- -");
+    this->GetOutStream() << "<!-- created on "  << host << " at " <<ctime(&t) << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
   }
 
-- 
2.43.0


From 9806168e61c36cf708e856e76b6d2a7a59f6a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 32/54] fix: let the difference filter's threads run with the
 installed toolkit

---
 itktf/itktfDifferenceImageFilter.h   | 4 ++--
 itktf/itktfDifferenceImageFilter.txx | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..2411ce4 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -39,7 +39,7 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  return  itk::NumericTraits<itk::VariableLengthVector<T> >::ZeroValue(v); 
 }
 
 template<typename TPixelType>
@@ -160,7 +160,7 @@ protected:
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..8fe1a1d 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -49,6 +49,9 @@ DifferenceImageFilter<TInputImage, TOutputImage>
   m_TotalMagnitude = NumericTraits<ScalarRealType>::Zero;
   m_NumberOfPixelsWithDifferences = 0;
   m_IgnoreBoundaryPixels = false;
+
+  // The statistics are collected per thread.
+  this->DynamicMultiThreadingOff();
 }
 
 //----------------------------------------------------------------------------
@@ -94,7 +97,7 @@ void
 DifferenceImageFilter<TInputImage, TOutputImage>
 ::BeforeThreadedGenerateData()
 {
-  int numberOfThreads = this->GetNumberOfThreads();
+  ThreadIdType numberOfThreads = this->GetNumberOfWorkUnits();
   
   // Resize the thread temporaries
   m_ThreadMagnitudeSum.resize(numberOfThreads);
@@ -111,7 +114,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +200,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From 4746f730640e29d6f59e36999fe4192bc2ee6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 33/54] fix: compute the difference of images with another
 geometry

---
 itktf/itktfDifferenceImageFilter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 2411ce4..485fb49 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -148,6 +148,10 @@ protected:
   
   void PrintSelf(std::ostream& os, Indent indent) const;
 
+  /** The pixels are compared by their index, wherever the images are
+   * located in physical space. */
+  void VerifyInputInformation() const {}
+
   /** DifferenceImageFilter can be implemented as a multithreaded
    * filter.  Therefore, this implementation provides a
    * ThreadedGenerateData() routine which is called for each
-- 
2.43.0


From bfdab4c8d5ef71f7ee8550eca98e987fbb0a39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 34/54] fix: compare the origin of the test image with the
 baseline's

---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From f7c737e98e350e780c2987094a7df0e9af4d8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 35/54] fix: tolerate the number of differing pixels once, not
 twice

---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..b8ab0b3 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -136,7 +136,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // the tolerated pixels are not included
+  return (status > 0) ? 1 : 0;
 }
 
 }
-- 
2.43.0


From 8a879e519cfba59a6236b731e93d916f99ad0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 36/54] fix: compare the requested region of the images

---
 itktf/itktfRegression.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index 74d7739..fbb9848 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -262,7 +262,7 @@ public:
       // extract only the specified region
       typedef itk::ExtractImageFilter<ImageType, ImageType> ExtractImageFilter;
       typename ExtractImageFilter::Pointer extractor = ExtractImageFilter::New();
-      extractor->SetExtractionRegion( testImage->GetLargestPossibleRegion() );
+      extractor->SetExtractionRegion( region );
       extractor->SetInput( baselineImage );
     
 
-- 
2.43.0


From 21fa90998bd31a26552624abd081031d91db3eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 37/54] fix: go on after an image which can not be read

---
 itktf/itktfDifferenceVisitor.cxx | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..462b3d0 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -58,11 +58,20 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
   if ( m.GetAttributeType() == "image/itk" &&
        (baseline = dynamic_cast<testutil::MeasurementFile*>(this->_baseline)) )
     {
-    DifferenceTestImage( m, 
-                         *baseline, 
-                         m_IntensityTolerance,
-                         m_NumberOfPixelsTolerance, 
-                         m_RadiusTolerance ) ;
+    try
+      {
+      DifferenceTestImage( m, 
+                           *baseline, 
+                           m_IntensityTolerance,
+                           m_NumberOfPixelsTolerance, 
+                           m_RadiusTolerance ) ;
+      }
+    catch (const itk::ExceptionObject &e)
+      {
+      // an image can not be read, just print the measurements
+      std::cerr << "Exception detected while differencing " << m.GetFileName() << " : " << e.GetDescription() << std::endl;
+      testutil::DifferenceVisitor::Visit(m);
+      }
     }
   else 
     {
-- 
2.43.0


From 262b90d751b72a13c09aa8b1df8f9f086b8dc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 38/54] fix: write the images of a difference

---
 itktf/itktfDifferenceVisitor.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 462b3d0..c8e1f74 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -119,6 +119,7 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+  extract->SetDirectionCollapseToIdentity();
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From f29794440df455dd74ba61fbea0a4f449934ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 39/54] fix: report the differences of images to the output
 stream

---
 itktf/itktfDifferenceVisitor.cxx | 41 +++++++++++++++++---------------
 itktf/itktfDifferenceVisitor.h   | 10 ++++----
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index c8e1f74..1b84de5 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -82,7 +82,8 @@ void DifferenceVisitor::Visit(testutil::MeasurementFile &m)
 template< typename ImageType >
 int ImageThing( typename ImageType::ConstPointer image, 
                 const  fileutil::PathName &fileName, 
-                const std::string &attributeName) 
+                const std::string &attributeName,
+                std::ostream &os ) 
 {
   
   typedef unsigned char                  OutputPixelType;
@@ -114,7 +115,6 @@ int ImageThing( typename ImageType::ConstPointer image,
 
   
   RegionType region( index, size );
-  std::cout << region;
 
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
@@ -164,7 +164,7 @@ int ImageThing( typename ImageType::ConstPointer image,
     outputMeasurement.SetAttributeType("image/png");
     outputMeasurement.SetAttributeName("Difference " + attributeName );
     outputMeasurement.SetContent(  fileName.GetPathName() );
-    std::cout << outputMeasurement << std::endl;
+    os << outputMeasurement << std::endl;
 
     return 0;  
 }
@@ -211,13 +211,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSize;
     statusMeasurement.SetAttributeName("Baseline Size "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSize;
     statusMeasurement.SetAttributeName("Test ImageSize "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     return 1;
     }
@@ -235,13 +235,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineSpacing;
     statusMeasurement.SetAttributeName("Baseline Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testSpacing;
     statusMeasurement.SetAttributeName("Test Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    this->GetOutStream() << statusMeasurement << std::endl;    
     }
 
   //////////////////////////////////////////////////////
@@ -257,13 +257,13 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     strstream << baselineOrigin;
     statusMeasurement.SetAttributeName("Baseline Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
 
     strstream.str( "" );
     strstream << testOrigin;
     statusMeasurement.SetAttributeName("Test Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-    std::cout << statusMeasurement << std::endl;    
+    this->GetOutStream() << statusMeasurement << std::endl;    
     }
   
   //////////////////////////////////////////////////////
@@ -278,11 +278,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetPixelTypeAsString( baselinePixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test PixelType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetPixelTypeAsString( testPixelType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   itk::ImageIOBase::IOComponentType baselineComponentType = baselineReader->GetImageIO()->GetComponentType();
@@ -294,11 +294,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::StringText statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( baselineReader->GetImageIO()->GetComponentTypeAsString( baselineComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test ComponentType "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( testReader->GetImageIO()->GetComponentTypeAsString( testComponentType ) );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   unsigned int baselineNumberOfComponents = baselineReader->GetImageIO()->GetNumberOfComponents();
@@ -310,11 +310,11 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     testutil::IntegerNumeric statusMeasurement;
     statusMeasurement.SetAttributeName("Baseline Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( baselineNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     
     statusMeasurement.SetAttributeName("Test Number Of Components "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetValue( testNumberOfComponents );
-    std::cout << statusMeasurement << std::endl;
+    this->GetOutStream() << statusMeasurement << std::endl;
     }
 
   // todo Check the number of components and the type to determing the
@@ -338,22 +338,25 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
   testutil::DoubleNumeric statusMeasurement;
   statusMeasurement.SetValue( static_cast<double>(status) );
   statusMeasurement.SetAttributeName("ImageError "  + testMeasurement.GetAttributeName() );
-  std::cout << statusMeasurement << std::endl;
+  this->GetOutStream() << statusMeasurement << std::endl;
 
   fileutil::PathName diffName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".diff.png");
   ImageThing<ImageType>( diff->GetOutput(), 
                          diffName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
     
   fileutil::PathName baselineName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".base.png");  
   ImageThing<ImageType>( baselineReader->GetOutput(), 
                          baselineName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
   
   fileutil::PathName testName = fileutil::PathName(ITK_REGRESSION_OUTPUT).Append(testImageFilename.Tail().GetPathName()+".test.png"); 
   ImageThing<ImageType>( testReader->GetOutput(), 
                          testName, 
-                         testMeasurement.GetAttributeName());
+                         testMeasurement.GetAttributeName(),
+                         this->GetOutStream());
   
   return (status > numberOfPixelsTolerance) ? 1 : 0;
 }
diff --git a/itktf/itktfDifferenceVisitor.h b/itktf/itktfDifferenceVisitor.h
index 788ea5c..8e088f3 100644
--- a/itktf/itktfDifferenceVisitor.h
+++ b/itktf/itktfDifferenceVisitor.h
@@ -41,11 +41,11 @@ public:
 protected:
   
 
-  static int DifferenceTestImage (testutil::MeasurementFile &testMeasurement,
-                                  testutil::MeasurementFile &baselineMeasurement,
-                                  double intensityTolerance,
-                                  unsigned int numberOfPixelsTolerance, 
-                                  unsigned int radiusTolerance );
+  int DifferenceTestImage (testutil::MeasurementFile &testMeasurement,
+                           testutil::MeasurementFile &baselineMeasurement,
+                           double intensityTolerance,
+                           unsigned int numberOfPixelsTolerance, 
+                           unsigned int radiusTolerance );
 
   
   double m_IntensityTolerance;
-- 
2.43.0


From 688432ee86711787b06ea47fe24ffa6aff6b3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 40/54] fix: reject image comparison tolerances that are not
 numbers

---
 itktf/itktfImageCompare.cxx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index a74bfa8..26581a8 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -1,6 +1,19 @@
 
 #include "itktf/itktfRegression.h"
 
+// convert all of the text to a number
+template< typename T >
+static bool ToNumber( const std::string &text, T &value )
+{
+  std::istringstream iss( text );
+  // the stream would wrap a negative number to unsigned
+  if ( !std::numeric_limits<T>::is_signed && text.find( '-' ) != std::string::npos )
+    {
+    return false;
+    }
+  return ( iss >> value ) && ( iss >> std::ws ).eof();
+}
+
 class itktfImageCompareRegressionTest
   : public itk::Regression
 {
@@ -42,9 +55,7 @@ public:
             }
 
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> intensityTolerance;
-          if ( iss.fail() )
+          if ( !ToNumber( argv[i], intensityTolerance ) )
             {
             std::cerr << "Expected double to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -60,9 +71,7 @@ public:
             }
 
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> numberOfPixelTolerance;
-          if ( iss.fail() )
+          if ( !ToNumber( argv[i], numberOfPixelTolerance ) )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -78,9 +87,7 @@ public:
             }
           
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> radiusTolerance;
-          if ( iss.fail() )
+          if ( !ToNumber( argv[i], radiusTolerance ) )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
-- 
2.43.0


From 537b1af3b8f25d3077ca7a0386e51da5e72840c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 41/54] fix: generate file names in the given root path

---
 itktf/itktfRegression.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index e05320f..dc34791 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -66,8 +66,15 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
     }
   
 
+  // the file goes in the root path wherever the program is
+  std::string program = m_ArgumentList.front();
+  if ( rootPath != "" )
+    {
+    program = fileutil::PathName( program ).Tail().GetPathName();
+    }
+
   std::ostringstream strstream;
-  strstream << m_ArgumentList.front() << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
+  strstream << program << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
 
 
   if ( rootPath != "" )
-- 
2.43.0


From 88a91280d70327b83fbff9db731a8381a0a2bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:44 +0000
Subject: [PATCH 42/54] fix: return zero from a measurement that matches, as
 documented

---
 TestingFramework/tfRegressionTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 08f59b6..42aaf50 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -415,13 +415,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From 0507b87f4ef053dc5982c0e40cb11fc58643efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 43/54] fix: release the files and the counts of a run, also of
 a failed one

---
 TestingFramework/tfRegressionTest.cpp | 25 +++++++++++++++++--------
 TestingFramework/tfRegressionTest.h   |  3 +++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 42aaf50..f2bfefa 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -64,7 +64,7 @@ namespace testutil {
   }
 
   RegressionTest::~RegressionTest(void) {
-    this->ReadXMLInputFree();
+    this->ReleaseMeasurement();
   }
   
   
@@ -180,8 +180,17 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     if (!this->GetCompareMode()) {
       this->WriteXMLOutputEnd();
       written = !this->GetOutStream().fail();
-    } else
-      this->ReadXMLInputFree();
+    }
+
+    this->ReleaseMeasurement();
+
+    if (!written)
+      throw std::runtime_error("unable to write the complete output!");
+    
+  }
+
+  void RegressionTest::ReleaseMeasurement(void) {
+    this->ReadXMLInputFree();
 
     if (this->os) {
       delete this->os;
@@ -192,10 +201,6 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       delete this->is;
       this->is = 0;
     }
-
-    if (!written)
-      throw std::runtime_error("unable to write the complete output!");
-    
   }
 
 
@@ -304,7 +309,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      this->inputUnmatched = 1; // whatever an earlier run counted
       
       this->ParseAndRemoveArguments(argc, argv);
       
@@ -335,6 +340,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
+
+    // a failed run did not get to its end
+    this->ReleaseMeasurement();
+
     if ( ret != this->GetExpectedReturn() )
       {
       return ret;
diff --git a/TestingFramework/tfRegressionTest.h b/TestingFramework/tfRegressionTest.h
index 494a4d6..8baf27d 100644
--- a/TestingFramework/tfRegressionTest.h
+++ b/TestingFramework/tfRegressionTest.h
@@ -211,6 +211,9 @@ namespace testutil {
     /// closes files, called after Test
     virtual void EndMeasurement(void);
 
+    /// frees the input and closes the files of a run, however it ended
+    void ReleaseMeasurement(void);
+
 
     /// a test measurement did not match the current input
     /// measurement. May pring output
-- 
2.43.0


From e703338b1206f824bf50804e5b146781ae63428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:51 +0000
Subject: [PATCH 44/54] fix: stop watching a filter when its watcher ends

---
 itktf/itktfFilterWatcher.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/itktf/itktfFilterWatcher.h b/itktf/itktfFilterWatcher.h
index 0976e9a..85bf3df 100644
--- a/itktf/itktfFilterWatcher.h
+++ b/itktf/itktfFilterWatcher.h
@@ -55,14 +55,22 @@ public:
     iterationFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowIteration);
     abortFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowAbort);
 
-    m_Process->AddObserver(itk::StartEvent(), startFilterCommand);
-    m_Process->AddObserver(itk::EndEvent(), endFilterCommand);
-    m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand);
-    m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand);
-    m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand);
+    m_StartTag = m_Process->AddObserver(itk::StartEvent(), startFilterCommand);
+    m_EndTag = m_Process->AddObserver(itk::EndEvent(), endFilterCommand);
+    m_ProgressTag = m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand);
+    m_IterationTag = m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand);
+    m_AbortTag = m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand);
   }
 
-  virtual ~FilterWatcher() {}
+  virtual ~FilterWatcher()
+  {
+    // the filter may outlive its watcher
+    m_Process->RemoveObserver(m_StartTag);
+    m_Process->RemoveObserver(m_EndTag);
+    m_Process->RemoveObserver(m_ProgressTag);
+    m_Process->RemoveObserver(m_IterationTag);
+    m_Process->RemoveObserver(m_AbortTag);
+  }
 
   virtual void ShowProgress() {}
 
@@ -105,6 +113,14 @@ protected:
 
 private:
   FilterWatcher(); // Purposely not implemented
+  FilterWatcher(const FilterWatcher &); // Purposely not implemented
+  void operator=(const FilterWatcher &); // Purposely not implemented
+
+  unsigned long m_StartTag;
+  unsigned long m_EndTag;
+  unsigned long m_ProgressTag;
+  unsigned long m_IterationTag;
+  unsigned long m_AbortTag;
 };
 
 }
-- 
2.43.0


From 2560296292679cdfe8bec5d083f6723fc37b5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 45/54] fix: numbers are written and read in the classic locale

---
 TestingFramework/tfMeasurement.cpp | 4 ++++
 TestingFramework/tfMeasurement.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 7f6cd67..054f033 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <stdexcept>
 #include <sstream>
+#include <locale>
 #include <assert.h>
 #include <cstring>
 
@@ -540,6 +541,7 @@ namespace testutil {
 
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss << v;
     this->SetContent(oss.str());
   }
@@ -556,6 +558,7 @@ namespace testutil {
 
   void FloatNumeric::SetValue(float v) {
     std::ostringstream oss;    
+    oss.imbue(std::locale::classic());
     oss.precision(7);
     oss << v;
     this->SetContent(oss.str());
@@ -573,6 +576,7 @@ namespace testutil {
 
   void DoubleNumeric::SetValue(double v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss.precision(16);
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 4293010..79e74f9 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -452,6 +452,7 @@ namespace testutil {
     template <class T>
     bool ReadValue(T &v) const {
       std::istringstream iss(this->GetContent());
+      iss.imbue(std::locale::classic());
       v = T();
       return (iss >> v) && (iss >> std::ws).eof();
     }
-- 
2.43.0


From 4481b149c358f5bcd57f40242823d527b5147793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 46/54] fix: a number that could not be formatted in full is an
 error

---
 TestingFramework/tfMeasurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 054f033..d54f7da 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -542,6 +542,7 @@ namespace testutil {
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss.imbue(std::locale::classic());
+    oss.exceptions(std::ios::badbit); // a part of the number is no number
     oss << v;
     this->SetContent(oss.str());
   }
@@ -559,6 +560,7 @@ namespace testutil {
   void FloatNumeric::SetValue(float v) {
     std::ostringstream oss;    
     oss.imbue(std::locale::classic());
+    oss.exceptions(std::ios::badbit); // a part of the number is no number
     oss.precision(7);
     oss << v;
     this->SetContent(oss.str());
@@ -577,6 +579,7 @@ namespace testutil {
   void DoubleNumeric::SetValue(double v) {
     std::ostringstream oss;
     oss.imbue(std::locale::classic());
+    oss.exceptions(std::ios::badbit); // a part of the number is no number
     oss.precision(16);
     oss << v;
     this->SetContent(oss.str());
-- 
2.43.0


From 8fc51d62fad7596e885f42acd7291b2053696b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 47/54] fix: line numbers of a text difference are written in
 the classic locale

---
 TestingFramework/tfMeasurementVisitor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TestingFramework/tfMeasurementVisitor.cpp b/TestingFramework/tfMeasurementVisitor.cpp
index a3f57be..0a3d33e 100644
--- a/TestingFramework/tfMeasurementVisitor.cpp
+++ b/TestingFramework/tfMeasurementVisitor.cpp
@@ -104,6 +104,7 @@ namespace testutil {
     Measurement &baseline = *this->_baseline; 
     
     std::ostringstream ostr;
+    ostr.imbue(std::locale::classic());
     Diff(baseline.GetContent(), m.GetContent(), ostr);
     PlainText diff;
     diff.SetAttributeName(std::string("Difference ")+m.GetAttributeName());
-- 
2.43.0


From 5ca761b5548a3c90e39c7c962dd12f848604debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 48/54] fix: component and file names are generated in the
 classic locale

---
 itktf/itktfRegression.cxx | 1 +
 itktf/itktfRegression.h   | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index dc34791..2907c1c 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -74,6 +74,7 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
     }
 
   std::ostringstream strstream;
+  strstream.imbue( std::locale::classic() );
   strstream << program << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
 
 
diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index fbb9848..60f6cd5 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -96,6 +96,7 @@ protected:
     for (unsigned int i = 0; i < Dimension; ++i) 
       {
       std::ostringstream nameWithIndex;
+      nameWithIndex.imbue( std::locale::classic() );
       nameWithIndex << name << "_" << i;
       ret += this->MeasurementNumericInteger( size[i], nameWithIndex.str(), tolerant);
       }
@@ -110,6 +111,7 @@ protected:
     for (unsigned int i = 0; i < Dimension; ++i) 
       {
       std::ostringstream nameWithIndex;
+      nameWithIndex.imbue( std::locale::classic() );
       nameWithIndex << name << "_" << i;
       ret += this->MeasurementNumericInteger( index[i], nameWithIndex.str(), tolerant);
       }
@@ -132,6 +134,7 @@ protected:
     for (unsigned int i = 0; i < Dimension; ++i) 
       {
       std::ostringstream nameWithIndex;
+      nameWithIndex.imbue( std::locale::classic() );
       nameWithIndex << name << "_" << i;
       ret += this->MeasurementNumericDouble( point[i], nameWithIndex.str(), tolerant);
       }
@@ -145,6 +148,7 @@ protected:
     for (unsigned int i = 0; i < Dimension; ++i) 
       {
       std::ostringstream nameWithIndex;
+      nameWithIndex.imbue( std::locale::classic() );
       nameWithIndex << name << "_" << i;
       ret += this->MeasurementNumericDouble( vector[i], nameWithIndex.str(), tolerant);
       }
@@ -158,6 +162,7 @@ protected:
     for (unsigned int i = 0; i < Dimension; ++i) 
       {
       std::ostringstream nameWithIndex;
+      nameWithIndex.imbue( std::locale::classic() );
       nameWithIndex << name << "_" << i;
       ret += this->MeasurementNumericDouble( array[i], nameWithIndex.str(), tolerant);
       }
@@ -173,6 +178,7 @@ protected:
       for (unsigned int j = 0; j < NColumns; ++j) 
         {
         std::ostringstream nameWithIndex;
+        nameWithIndex.imbue( std::locale::classic() );
         nameWithIndex << name << "_" << i << "_" << j;
         ret += this->MeasurementNumericDouble( matrix[i][j], nameWithIndex.str(), tolerant);
         }
-- 
2.43.0


From 70d6544e400a7e886a3c84e3d23001cb6a4421da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 49/54] fix: the report of an image difference is written in
 the classic locale

---
 itktf/itktfDifferenceVisitor.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 1b84de5..acd3f26 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -208,6 +208,7 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     // output two measurements of the image sizes'
     testutil::StringText statusMeasurement;
     std::ostringstream strstream;
+    strstream.imbue( std::locale::classic() );
     strstream << baselineSize;
     statusMeasurement.SetAttributeName("Baseline Size "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
@@ -232,6 +233,7 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     // output two measurements of the image spacing
     testutil::StringText statusMeasurement;
     std::ostringstream strstream;
+    strstream.imbue( std::locale::classic() );
     strstream << baselineSpacing;
     statusMeasurement.SetAttributeName("Baseline Spacing "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
@@ -254,6 +256,7 @@ int DifferenceVisitor::DifferenceTestImage (testutil::MeasurementFile &testMeasu
     // output two measurements of the image spacing
     testutil::StringText statusMeasurement;
     std::ostringstream strstream;
+    strstream.imbue( std::locale::classic() );
     strstream << baselineOrigin;
     statusMeasurement.SetAttributeName("Baseline Origin "  + testMeasurement.GetAttributeName() );
     statusMeasurement.SetContent( strstream.str() );
-- 
2.43.0


From d5244ce8e4475213ea2e659e143ee2e9c5c59544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 50/54] fix: the date of the output does not go through a
 buffer shared by threads

---
 TestingFramework/tfRegressionTest.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index f2bfefa..936861b 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -604,15 +604,19 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     time(&t);    
 #if defined(WIN32)
     strcpy(hostname, "unknow windows host");
+    const char *date = ctime(&t);
 #else
     gethostname(hostname, 256);
+    // the result of ctime is shared by all threads
+    char buffer[64];
+    const char *date = ctime_r(&t, buffer);
 #endif
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     // a double hyphen is not allowed in a comment
     std::string host(hostname);
     for (std::string::size_type i; (i = host.find("--")) != std::string::npos; )
       host.replace(i, 2, "- -");
-    this->GetOutStream() << "<!-- created on "  << host << " at " <<ctime(&t) << " -->" << std::endl;
+    this->GetOutStream() << "<!-- created on "  << host << " at " << date << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
   }
 
-- 
2.43.0


From 2a70f4f8545f50a0c15eee773e0a34f08baee36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 51/54] fix: an output file that could not be closed is an
 error

---
 TestingFramework/tfRegressionTest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 936861b..5e59381 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -179,6 +179,9 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     
     if (!this->GetCompareMode()) {
       this->WriteXMLOutputEnd();
+      // what was written may only be lost when the file is closed
+      if (std::ofstream *file = dynamic_cast<std::ofstream*>(this->os))
+        file->close();
       written = !this->GetOutStream().fail();
     }
 
-- 
2.43.0


From 5df2019d2df8a3eea72d465c9ce723022f301f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:31 +0000
Subject: [PATCH 52/54] fix: a carriage return in a recorded text was read back
 as a line feed

---
 TestingFramework/tfMeasurement.cpp | 6 ++++--
 TestingFramework/tfMeasurement.h   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index d54f7da..26aff7c 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -121,7 +121,7 @@ namespace testutil {
   std::string Measurement::ApplyEscapeSequences(const std::string &str) const {
       
     std::string::size_type j = 0;
-    std::string::size_type i = str.find_first_of("&<>");
+    std::string::size_type i = str.find_first_of("&<>\r");
     if (i == str.length())
       return str;
     std::string result;
@@ -133,9 +133,11 @@ namespace testutil {
 	result.append("&lt;");
       else if (str[i] == '>')
 	result.append("&gt;"); 
+      else if (str[i] == '\r') // is read as a line feed
+	result.append("&#13;");
 	
       j = i + 1;
-      i = str.find_first_of("&<>", j);
+      i = str.find_first_of("&<>\r", j);
     }      
     result.append(str,j,i-j);
     return result;
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 79e74f9..1187ac7 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -97,7 +97,8 @@ namespace testutil {
     
     /// \brief converts all needed charactors to escape sequences
     ///
-    /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully
+    /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully,
+    /// and a carriage return with &#13;
     virtual std::string ApplyEscapeSequences(const std::string &str) const;
     //virtual std::string ReplaceEscapeSequences(const std::string &str);
     
-- 
2.43.0


From f82087b3b462899553a132a5dc7a7d739f9030ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:31 +0000
Subject: [PATCH 53/54] fix: a tab or line break in a measurement's name was
 read back as a space

---
 TestingFramework/tfMeasurement.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 26aff7c..82a375b 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -149,8 +149,9 @@ namespace testutil {
       return str;
     std::string result = this->ApplyEscapeSequences(str);
     std::string::size_type i = 0;
-    while ((i = result.find('"', i)) != std::string::npos)
-      result.replace(i, 1, "&quot;");
+    // white space other than a space is read as a space
+    while ((i = result.find_first_of("\"\t\n", i)) != std::string::npos)
+      result.replace(i, 1, result[i] == '"' ? "&quot;" : result[i] == '\t' ? "&#9;" : "&#10;");
     return result;
   }
 
-- 
2.43.0


From c5b2df6cd1b55bf1500d731b789b90ba3e877c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:26 +0000
Subject: [PATCH 54/54] fix: visitors and the baseline entry were leaked when a
 visitor threw

---
 TestingFramework/tfRegressionTest.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e59381..cb77d02 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -54,6 +54,18 @@
 
 namespace testutil {
 
+  namespace {
+    // releases what it holds however its block is left
+    template <class T> struct Owner {
+      explicit Owner(T *_p) : p(_p) {}
+      ~Owner(void) { delete p; }
+      T *p;
+    private:
+      Owner(const Owner &);
+      Owner &operator=(const Owner &);
+    };
+  }
+
   
   RegressionTest::RegressionTest(void) : 
     os(0), 
@@ -373,10 +385,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     //    std::cout << "difference measurement \"" << test.GetAttributeName() << "\"." << std::endl;  
     this->inputUnmatched++;
     DifferenceVisitor *vis = this->CreateDifferenceVisitor();
+    Owner<DifferenceVisitor> visOwner(vis);
     vis->SetOutStream(this->GetOutStream());
     vis->SetBaselineMeasurement(&input);
     test.AcceptVisitor(*vis);
-    delete vis;
   }
       
 
@@ -391,6 +403,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     if (!this->Input.empty()) {
       
       baseline = this->Input.front();
+      Owner<Measurement> baselineOwner(baseline);
       this->Input.pop_front();
       
       if (baseline->GetAttributeName() == test.GetAttributeName() &&
@@ -415,6 +428,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
 	 
         CompareVisitor *vis = this->CreateCompareVisitor();
+        Owner<CompareVisitor> visOwner(vis);
         vis->SetBaselineMeasurement(baseline);
 
 	if ( tolerant )
@@ -437,11 +451,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           this->DifferenceMeasurement(test, *baseline);
           }
         
-        delete vis;
-        
       } else 
 	this->UnmatchedMeasurement(test);
-      delete baseline;
     } else 
       this->UnmatchedMeasurement(test);
 
-- 
2.43.0

