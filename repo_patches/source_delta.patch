From d4d9642aeb4acbc73934979fe3118ac106eb59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 01/36] fix: html40: undefined names and wrong calls in colour,
 length, map and address handling

---
 pyslet/pyslet/html40_19991224.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/html40_19991224.py b/pyslet/pyslet/html40_19991224.py
index e947734..42184fd 100644
--- a/pyslet/pyslet/html40_19991224.py
+++ b/pyslet/pyslet/html40_19991224.py
@@ -342,10 +342,10 @@ class Color(object):
 			self.r=self.g=self.b=0
 	
 	def __str__(self):
-		return "#02X02X02X"%(self.r,self.g,self.b)
+		return "#%02X%02X%02X"%(self.r,self.g,self.b)
 
 	def __unicode__(self):
-		return u"#02X02X02X"%(self.r,self.g,self.b)
+		return u"#%02X%02X%02X"%(self.r,self.g,self.b)
 
 
 class BodyColorsMixin(object):
@@ -638,7 +638,7 @@ class BDO(CoreAttrsMixin,SpecialMixin,InlineContainer):
 	XMLATTR_dir=('dir',Direction.DecodeLowerValue,Direction.EncodeValue)
 	
 	def __init__(self,parent):
-		super(BDO,self).__init__(self,parent)
+		super(BDO,self).__init__(parent)
 		self.dir=Direction.DEFAULT
 
 
@@ -770,7 +770,7 @@ class Address(AttrsMixin,BlockMixin,InlineContainer):
 
 	def ChildElement(self,childClass,name=None):
 		if childClass is P:
-			return P(self,name)
+			return super(XHTMLElement,self).ChildElement(childClass,name)
 		else:
 			return super(XHTMLElement,self).ChildElement(childClass,name)
 
@@ -947,7 +947,7 @@ class LengthType(object):
 		elif self.type==LengthType.Pixel:
 			self.value+=value
 		else:
-			raise ValueError("Can't add integer to non-Pixel length value: %s+&i"%(str(self),value))
+			raise ValueError("Can't add integer to non-Pixel length value: %s+%i"%(str(self),value))
 
 
 class Coords:
@@ -1204,7 +1204,7 @@ class Map(AttrsMixin,SpecialMixin,BlockContainer):
 
 	def ChildElement(self,childClass,name=None):
 		if childClass is Area:
-			return Area(self,name)
+			return super(XHTMLElement,self).ChildElement(childClass,name)
 		else:
 			return super(Map,self).ChildElement(childClass,name)
 
@@ -1299,11 +1299,13 @@ class MultiLength(LengthType):
 					strValue=strValue[0:strValue.index("*")]
 					if strValue:
 						self.value=int(strValue)
-						if v<0:
+						if self.value<0:
 							raise ValueError
 					else:
 						self.value=1
 					self.type=valueType
+				else:
+					super(MultiLength,self).__init__(value,valueType)
 			except ValueError:
 				raise XHTMLValidityError("Failed to read MultiLength from %s"%value)
 		else:
@@ -1318,7 +1320,7 @@ class MultiLength(LengthType):
 	
 	def __unicode__(self):
 		"""Overridden to add "*" handling."""
-		if self.type==LengthType.Relative:
+		if self.type==MultiLength.Relative:
 			return unicode(self.value)+'*'
 		else:
 			return super(MultiLength,self).__unicode__()
@@ -1352,7 +1354,7 @@ class MultiLengths(object):
 		if values:
 			if type(values) in StringTypes:
 				if ',' in values:
-					self.values=map(lambda x:MultiLength(x.strip()),value.split(','))
+					self.values=map(lambda x:MultiLength(x.strip()),values.split(','))
 			else:
 				for v in values:
 					if isinstance(v,MultiLength):
-- 
2.43.0


From f2a1de5690f0df2d78e5eb061ecc9801fcc41acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 02/36] fix: imscp: manifest name comparison, missing error
 class and raise

---
 pyslet/pyslet/imscpv1p2.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 19dd93b..d5248f1 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -27,6 +27,7 @@ class CPException(Exception): pass
 class CPFilePathError(Exception): pass
 class CPFileTypeError(Exception): pass
 class CPManifestError(CPException): pass
+class CPPackageBeenThereError(CPException): pass
 class CPProtocolError(CPException): pass
 class CPValidationError(CPException): pass
 class CPZIPBeenThereError(Exception): pass
@@ -490,7 +491,7 @@ class ContentPackage:
 		fullPath=self.dPath.join(fPath)
 		rFullPath=fullPath.realpath()
 		if rFullPath in beenThere:
-			raise CPPackageBeenThereError(rFullPath)
+			raise CPPackageBeenThereError(str(rFullPath))
 		beenThere[rFullPath]=True
 		if fullPath.isdir():
 			for f in fullPath.listdir():
@@ -667,8 +668,8 @@ class ContentPackage:
 			if self.IgnoreFile(unicode(tail)):
 				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
-				raise CPFilePathError(url.path)
+			if relPath is None or unicode(relPath).lower()==u'imsmanifest.xml':
+				raise CPFilePathError(str(fURL))
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
 			f=resource.ChildElement(resource.FileClass)
@@ -739,7 +740,7 @@ class ContentPackage:
 		if not isinstance(fURL,uri.FileURL):
 			# We cannot delete non-file objects (though in future
 			# we should support HTTP DELETE)
-			return CPProtocolError(str(fURL))
+			raise CPProtocolError(str(fURL))
 		fullPath=fURL.GetVirtualFilePath()
 		if not fullPath.isfile():
 			raise CPFileTypeError(fullPath)
@@ -747,7 +748,7 @@ class ContentPackage:
 		if self.IgnoreFile(unicode(tail)):
 			raise CPFilePathError(fullPath)
 		relPath=PathInPath(fullPath,self.dPath)
-		if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
+		if relPath is None or unicode(relPath).lower()==u'imsmanifest.xml':
 			raise CPFilePathError(fullPath)
 		# normalise the case ready for comparisons
 		relPath=relPath.normcase()
-- 
2.43.0


From 3b40c1a2c0f1aa46d153b27ec1e5d1ea9a5ec1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 03/36] fix: iso8601: undefined names and wrong calls on
 precision paths

---
 pyslet/pyslet/iso8601.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 6310356..deb0991 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -1214,7 +1214,7 @@ class Time(object):
 			t,overflow=base.Extend(hour=19,minute=7)
 			# t is 19:07:40Z, overflow is 1"""
 		if not self.Complete():
-			raise DateTimeError("Can't construct truncated time from incomplete base: %s"%str(base))
+			raise DateTimeError("Can't construct truncated time from incomplete base: %s"%str(self))
 		addMinute=addHour=0
 		if hour is None:
 			# Truncation of hour or more
@@ -1407,7 +1407,7 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
-			return self.WithZone(zDirection=zDireciton,zHour=zHour,zMinute=zMinute)
+			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute)
 		else:
 			raise TypeError
 		
@@ -1989,7 +1989,7 @@ class Time(object):
 		# we need to calculate the new zone from zChange
 		z=self.GetZoneOffset()
 		if z is None:
-			raise DateTimeTimeError("Time zone required for ChangeZone "+str(self))
+			raise DateTimeError("Time zone required for ChangeZone "+str(self))
 		newOffset=z+zChange
 		if newOffset==0:
 			t,overflow=self.ShiftZone(zDirection=0)
@@ -2267,7 +2267,7 @@ class TimePoint(object):
 		representing the precision of this TimePoint."""
 		return self.time.GetPrecision()
 	
-	def WithPrecision(self):
+	def WithPrecision(self,precision,truncate=False):
 		"""Constructs a :py:class:`TimePoint` instance from an existing
 		TimePoint but with the precision specified by *precision*.  For
 		more details see :py:meth:`Time.WithPrecision`"""
@@ -2378,7 +2378,7 @@ class TimePoint(object):
 		warnings.warn("TimePoint.ChangeZone is deprecated, use ShiftZone() instead", DeprecationWarning, stacklevel=2)
 		z=self.time.GetZoneOffset()
 		if z is None:
-			raise DateTimeTimeError("Time zone required for ChangeZone "+str(self))
+			raise DateTimeError("Time zone required for ChangeZone "+str(self))
 		else:
 			newOffset=z+zChange
 		if newOffset==0:
@@ -3278,7 +3278,7 @@ class ISO8601Parser(RFC2234CoreParser):
 	
 	def ParseTime(self,t,tBase=None,tDesignator="T"):
 		warnings.warn("ISO8601Parser.ParseTime is deprecated, use ParseTimeFormat instead", DeprecationWarning, stacklevel=2)		
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignator:
 			self.NextChar()
 			tDesignator=1
 		else:
-- 
2.43.0


From c1a11bba8ce04211e1efeff03653dc066563bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 04/36] fix: qtiv1: undefined names, attributes and wrong calls
 on migration paths

---
 pyslet/pyslet/imsqtiv1p2p1.py     |  2 +-
 pyslet/pyslet/qtiv1/assessment.py | 14 ++++-----
 pyslet/pyslet/qtiv1/common.py     | 46 ++++++++++++++++-------------
 pyslet/pyslet/qtiv1/core.py       |  2 +-
 pyslet/pyslet/qtiv1/item.py       | 48 +++++++++++++++----------------
 pyslet/pyslet/qtiv1/outcomes.py   |  6 ++--
 pyslet/pyslet/qtiv1/sao.py        |  2 +-
 pyslet/pyslet/qtiv1/section.py    |  4 +--
 8 files changed, 65 insertions(+), 59 deletions(-)

diff --git a/pyslet/pyslet/imsqtiv1p2p1.py b/pyslet/pyslet/imsqtiv1p2p1.py
index 45b3357..5ea028c 100644
--- a/pyslet/pyslet/imsqtiv1p2p1.py
+++ b/pyslet/pyslet/imsqtiv1p2p1.py
@@ -122,7 +122,7 @@ class QTIDocument(xml.Document):
 		if matThing.label is not None:
 			self.matThings[matThing.label]=matThing
 	
-	def UnregisterMatThing(self,mathThing):
+	def UnregisterMatThing(self,matThing):
 		if matThing.label is not None and matThing is self.matThings.get(matThing.label,None):
 			del self.matThings[matThing.label]			
 	
diff --git a/pyslet/pyslet/qtiv1/assessment.py b/pyslet/pyslet/qtiv1/assessment.py
index 4924293..4fb660b 100755
--- a/pyslet/pyslet/qtiv1/assessment.py
+++ b/pyslet/pyslet/qtiv1/assessment.py
@@ -4,9 +4,9 @@ import pyslet.xml20081126.structures as xml
 import pyslet.xsdatatypes20041028 as xsi
 import pyslet.imsqtiv2p1 as qtiv2
 
-import core, common
+import core, common, section
 
-import string
+import string, itertools
 
 class Assessment(common.QTICommentContainer):
 	"""The Assessment data structure is used to contain the exchange of test
@@ -54,18 +54,18 @@ class Assessment(common.QTICommentContainer):
 		self.SectionMixin=[]
 		
 	def SectionRef(self):
-		child=SectionRef(self)
+		child=section.SectionRef(self)
 		self.SectionMixin.append(child)
 		return child
 		
 	def Section(self):
-		child=Section(self)
+		child=section.Section(self)
 		self.SectionMixin.append(child)
 		return child
 		
 	def GetChildren(self):
 		for child in itertools.chain(
-			QTIComment.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.AssessmentControl,
@@ -73,7 +73,7 @@ class Assessment(common.QTICommentContainer):
 			yield child
 		if self.PresentationMaterial: yield self.PresentationMaterial
 		for child in self.QTIOutcomesProcessing: yield child
-		if self.QTIAssessProcExtension: yield self.QTIAssessProcExtension
+		if self.AssessProcExtension: yield self.AssessProcExtension
 		for child in self.AssessFeedback: yield child
 		if self.QTISelectionOrdering: yield self.QTISelectionOrdering
 		if self.QTIReference: yield self.QTIReference
@@ -153,7 +153,7 @@ class AssessFeedback(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.QTIFlowMat):
+		if childClass in (common.Material,common.FlowMat):
 			common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 57063c3..3f5770c 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -5,6 +5,7 @@ import pyslet.xsdatatypes20041028 as xsi
 import pyslet.html40_19991224 as html
 import pyslet.imsqtiv2p1 as qtiv2
 import pyslet.imsmdv1p2p1 as imsmd
+import pyslet.rfc2616 as http
 
 import core
 
@@ -319,7 +320,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 				uri=self.ResolveURI(self.uri)
 				try:
 					e=xml.XMLEntity(uri)
-				except http.HTTP2616Exception,e:
+				except http.HTTPException,e:
 					e=xml.XMLEntity(unicode(e))
 			else:
 				uri=self.ResolveBase()
@@ -331,8 +332,13 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					for child in self.GetChildren():
 						value.append(unicode(child))
 					value=string.join(value,'')
+				e=None
 				if value:
 					e=xml.XMLEntity(value)
+			if e is None:
+				# there is no content to parse
+				self.matChildren=[]
+				return
 			doc=html.XHTMLDocument(baseURI=uri)
 			doc.ReadFromEntity(e)
 			self.matChildren=list(doc.root.Body.GetChildren())
@@ -343,7 +349,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					self.matChildren=list(div.GetChildren())
 		elif self.texttype=='text/rtf':
 			# parse the RTF content
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 	def IsInline(self):
 		if self.texttype=='text/plain':
@@ -357,7 +363,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					return False
 			return True
 		else:
-			raise QTIUnimplementedError(self.texttype)
+			raise core.QTIUnimplementedError(self.texttype)
 			
 	def ExtractText(self):
 		if self.matChildren:
@@ -451,7 +457,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 						newChild=child.Copy(addNode)
 						qtiv2.content.FixHTMLNamespace(newChild)
 		else:
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 
 class MatEmText(MatText):
@@ -548,7 +554,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline images")
+			raise core.QTIUnimplementedError("inclusion of inline images")
 		if childType is html.BlockMixin:
 			# We must wrap this img in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -599,7 +605,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline audio")
+			raise core.QTIUnimplementedError("inclusion of inline audio")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -651,7 +657,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline video")
+			raise core.QTIUnimplementedError("inclusion of inline video")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -701,7 +707,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 		return "[applet]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplet")
+		raise core.QTIUnimplementedError("matapplet")
 
 
 class MatApplication(core.QTIElement,MatThingMixin):
@@ -741,7 +747,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 		return "[application]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplication")
+		raise core.QTIUnimplementedError("matapplication")
 
 
 class MatRef(MatThingMixin,core.QTIElement):
@@ -919,7 +925,7 @@ class Vocabulary(core.QTIElement):
 	XMLATTR_vocab_type='vocabType'
 
 	def __init__(self,parent):
-		QTIElement.__init__(self,parent)
+		core.QTIElement.__init__(self,parent)
 		self.uri=None
 		self.entityRef=None
 		self.vocabType=None		
@@ -1177,11 +1183,11 @@ class SetVar(core.QTIElement):
 		identifier=qtiv2.core.ValidateIdentifier(self.varName)
 		outcome=v2Item.declarations.get(identifier,None)
 		if outcome is None:
-			raise QTIUnimplementedError("Auto-declared outcomes")
+			raise core.QTIUnimplementedError("Auto-declared outcomes")
 		setValue=parent.ChildElement(qtiv2.processing.SetOutcomeValue)
 		setValue.identifier=identifier
 		if outcome.cardinality!=qtiv2.variables.Cardinality.single:
-			raise QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
+			raise core.QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
 				qtiv2.variables.Cardinality.encode[outcome.cardinality]))
 		value=None
 		variable=None
@@ -1276,7 +1282,7 @@ class ExtendableExpressionMixin:
 	"""Abstract mixin class to indicate an expression, including var_extension"""
 
 	def MigrateV2Expression(self,parent,log):
-		raise QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
 
 	
 class ExpressionMixin(ExtendableExpressionMixin):
@@ -1366,7 +1372,7 @@ class VarEqual(VarThing):
 				log.append("Warning: equality operator with float values is deprecated")
 				expression=parent.ChildElement(qtiv2.expressions.Equal)
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
@@ -1380,7 +1386,7 @@ class VarEqual(VarThing):
 			elif d.baseType==qtiv2.variables.BaseType.float:
 				log.append("Warning: member operation is deprecated when baseType is float")
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			expression=parent.ChildElement(qtiv2.expressions.Member)
 			self.MigrateV2Value(d,expression,log)
 			self.MigrateV2Variable(d,expression,log)
@@ -1391,7 +1397,7 @@ class VarInequality(VarThing):
 
 	def MigrateV2Inequality(self):
 		"""Returns the class to use in qtiv2"""
-		raise QTIUnimplementedOperator(self.xmlname)
+		raise core.QTIUnimplementedError(self.xmlname)
 		
 	def MigrateV2Expression(self,parent,log):
 		v2Item=parent.FindParent(qtiv2.items.AssessmentItem)
@@ -1404,11 +1410,11 @@ class VarInequality(VarThing):
 			if d.baseType==qtiv2.variables.BaseType.integer or d.baseType==qtiv2.variables.BaseType.float:
 				expression=parent.ChildElement(self.MigrateV2Inequality())
 			else:
-				raise QTIUnimplementedOperator("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.Encode(d.baseType)))
+				raise core.QTIUnimplementedError("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
-			raise QTIUnimplementedOperator("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.Encode(d.cardinality),qtiv2.variables.BaseType.Encode(d.baseType)))
+			raise core.QTIUnimplementedError("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.EncodeValue(d.cardinality),qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 
 	
 class VarLT(VarInequality):
@@ -1533,9 +1539,9 @@ class VarInside(VarThing):
 				expression.shape,expression.coords=core.MigrateV2AreaCoords(self.areaType,self.GetValue(),log)
 				self.MigrateV2Variable(d,expression,log)			
 			else:
-				raise QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
+				raise core.QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 		else:
-			raise QTIUnimplementedError("varinside with multiple/orderd variable")
+			raise core.QTIUnimplementedError("varinside with multiple/orderd variable")
 
 
 class DurEqual(core.QTIElement,ExpressionMixin):
diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index 7793c9c..8efee58 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -164,7 +164,7 @@ def MigrateV2AreaCoords(area,value,log):
 		coords=[coords[0],coords[1],coords[0]+coords[3]-1,coords[1]+coords[2]-1]
 	elif area==Area.Ellipse:
 		if len(coords)<4:
-			if len(corrds)<2:
+			if len(coords)<2:
 				log.append("Error: not enough coordinates to locate ellipse, padding with zero")
 				while len(coords)<2:
 					coords.append(0)
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 62c0b3c..1842042 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -925,14 +925,14 @@ class ResponseThing(Response):
 
 	def GetBaseType(self,interaction):
 		"""Returns the base type to use for the given interaction."""
-		raise QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to inline interaction")
+				raise core.QTIError("Unexpected attempt to inline interaction")
 			interactionPrompt=None
 			if isinstance(self.render,RenderHotspot):
 				div=parent.ChildElement(html.Div,(qtiv2.core.IMSQTI_NAMESPACE,'div'))
@@ -1031,7 +1031,7 @@ class ResponseXY(ResponseThing):
 		if isinstance(interaction,qtiv2.interactions.SelectPointInteraction):
 			return qtiv2.variables.BaseType.point
 		else:
-			return ResponseThing.GetBaseType(self)
+			return ResponseThing.GetBaseType(self,interaction)
 
 
 class ResponseStr(ResponseThing):
@@ -1148,7 +1148,7 @@ class RenderThing(Render):
 		return True
 
 	def MigrateV2Interaction(self,parent,childType,prompt,log):
-		raise QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
+		raise core.QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
 		
 	def MigrateV2InteractionDefault(self,parent,interaction):
 		# Most interactions do not need default values.
@@ -1187,13 +1187,13 @@ class RenderChoice(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to put block interaction in inline context")
+				raise core.QTIError("Unexpected attempt to put block interaction in inline context")
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
 		else:		
-			raise QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1241,16 +1241,16 @@ class RenderHotspot(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("GraphicOrderInteraction")
+				raise core.QTIUnimplementedError("GraphicOrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 		elif isinstance(self.parent,ResponseXY):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError('response_xy x render_hotspot')
+				raise core.QTIUnimplementedError('response_xy x render_hotspot')
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.SelectPointInteraction)
 		else:
-			raise QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
 		if self.showDraw:
 			log.append('Warning: ignoring showdraw="Yes", what did you really want to happen?')
 		if self.minNumber is not None:
@@ -1525,7 +1525,7 @@ class RenderSlider(RenderThing):
 				interaction.maxChoices=1
 			elif self.parent.rCardinality==core.RCardinality.Ordered:
 				log.append("Error: ordered-slider replaced with orderInteraction.slider")
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				log.append("Error: multiple-slider replaced with choiceInteraction.slider")
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
@@ -1549,9 +1549,9 @@ class RenderSlider(RenderThing):
 					interaction.orientation=core.MigrateV2Orientation(self.orientation)
 				# startValues are handled below after the variable is declared
 			else:
-				raise QTIUnimplementedError("Multiple/Ordered SliderInteraction")
+				raise core.QTIUnimplementedError("Multiple/Ordered SliderInteraction")
 		else:	
-			raise QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1568,7 +1568,7 @@ class RenderSlider(RenderThing):
 				value.SetValue(xsi.EncodeFloat(self.startVal))
 			else:
 				# slider bound to something else?
-				raise QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
+				raise core.QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
 
 
 class RenderExtension(Render):
@@ -1798,7 +1798,7 @@ class ResProcessing(common.QTICommentContainer):
 		self.ConditionMixin=[]
 		
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in self.ConditionMixin: yield child
 
@@ -1844,7 +1844,7 @@ class Outcomes(common.QTICommentContainer):
 	
 	def GetChildren(self):
 		return itertools.chain(
-			QTICommentContainer.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.DecVar,
 			self.InterpretVar)
 
@@ -1887,7 +1887,7 @@ class RespCondition(common.QTICommentContainer,ConditionMixin):
 		self.RespCondExtension=None
 	
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.ConditionVar
 		for child in itertools.chain(
 			self.SetVar,
@@ -2029,7 +2029,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 
 	def GetChildren(self):
 		return itertools.chain(
-			QTIElement.GetChildren(self),
+			core.QTIElement.GetChildren(self),
 			self.contentChildren)
 
 	def MigrateV2(self,v2Item,log):
@@ -2068,8 +2068,8 @@ class Solution(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class FeedbackMaterial(common.ContentMixin,core.QTIElement):
@@ -2089,7 +2089,7 @@ class FeedbackMaterial(common.ContentMixin,core.QTIElement):
 			raise TypeError
 
 	def GetChildren(self):
-		return common.ContentMixin.GetContentChildren()
+		return common.ContentMixin.GetContentChildren(self)
 
 
 class SolutionMaterial(FeedbackMaterial):
@@ -2116,7 +2116,7 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		common.ContentMixin.__init__(self)
-		self.feedbackStyle=FeedbackStyle.DEFAULT
+		self.feedbackStyle=core.FeedbackStyle.DEFAULT
 	
 	def ContentMixin(self,childClass):
 		if childClass is HintMaterial:
@@ -2126,8 +2126,8 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class HintMaterial(FeedbackMaterial):
diff --git a/pyslet/pyslet/qtiv1/outcomes.py b/pyslet/pyslet/qtiv1/outcomes.py
index cadaf1c..1247b73 100755
--- a/pyslet/pyslet/qtiv1/outcomes.py
+++ b/pyslet/pyslet/qtiv1/outcomes.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common, item
 
-import string
+import string, itertools
 
 
 class OutcomesProcessing(common.QTICommentContainer):
@@ -32,14 +32,14 @@ class OutcomesProcessing(common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		self.scoreModel=None
-		self.Outcomes=itemm.Outcomes(self)
+		self.Outcomes=item.Outcomes(self)
 		self.ObjectsCondition=[]
 		self.ProcessingParameter=[]
 		self.MapOutput=[]
 		self.OutcomesFeedbackTest=[]
 	
 	def GetChildren(self):
-		for child in common.QTICommentContainer.GetChildren(): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in itertools.chain(
 			self.ObjectsCondition,
diff --git a/pyslet/pyslet/qtiv1/sao.py b/pyslet/pyslet/qtiv1/sao.py
index 1df1243..bc6b812 100755
--- a/pyslet/pyslet/qtiv1/sao.py
+++ b/pyslet/pyslet/qtiv1/sao.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class SelectionOrdering(common.QTICommentContainer):
diff --git a/pyslet/pyslet/qtiv1/section.py b/pyslet/pyslet/qtiv1/section.py
index a277b3b..ca65861 100755
--- a/pyslet/pyslet/qtiv1/section.py
+++ b/pyslet/pyslet/qtiv1/section.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
@@ -60,7 +60,7 @@ class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
 		
 	def GetChildren(self):
 		for child in itertools.chain(
-			core.QTIComment.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.SectionControl,
-- 
2.43.0


From 8b51366675c78ff270c0faf1ad5ac32c942ad001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 05/36] fix: qtiv2: undefined names and attributes in sessions,
 interactions and variables

---
 pyslet/pyslet/qtiv2/core.py         |  2 +-
 pyslet/pyslet/qtiv2/interactions.py | 14 ++++----------
 pyslet/pyslet/qtiv2/variables.py    | 29 ++++++++++++++++-------------
 3 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..3afafc8 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -367,6 +367,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
diff --git a/pyslet/pyslet/qtiv2/interactions.py b/pyslet/pyslet/qtiv2/interactions.py
index 212c95b..ea24f1e 100755
--- a/pyslet/pyslet/qtiv2/interactions.py
+++ b/pyslet/pyslet/qtiv2/interactions.py
@@ -492,11 +492,8 @@ class GapText(GapChoice):
 	XMLCONTENT=xmlns.XMLMixedContent
 
 	def ChildElement(self,childClass,name=None):
-		if issubclass(childClass,content.PrintedVariable):
-			return GapChoice.ChildElement(self,childClass,name)
-		else:
-			# This child cannot go in here
-			raise core.QTIValidityError("%s in %s"%(childClass.__name__,self.__class__.__name__))		
+		# printedVariable is not implemented: no child can go in here
+		raise core.QTIValidityError("%s in %s"%(childClass.__name__,self.__class__.__name__))		
 
 
 class GapImg(GapChoice):
@@ -570,11 +567,8 @@ class InlineChoice(Choice):
 	XMLCONTENT=xmlns.XMLMixedContent
 
 	def ChildElement(self,childClass,name=None):
-		if issubclass(childClass,content.PrintedVariable):
-			return Choice.ChildElement(self,childClass,name)
-		else:
-			# This child cannot go in here
-			raise core.QTIValidityError("%s in %s"%(childClass.__name__,self.__class__.__name__))		
+		# printedVariable is not implemented: no child can go in here
+		raise core.QTIValidityError("%s in %s"%(childClass.__name__,self.__class__.__name__))		
 
 
 class StringInteractionMixin:
diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..44a0e14 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -9,9 +9,14 @@ from pyslet.rfc2396  import URI, URIFactory
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.tests as tests
 
-import os, time, hashlib, types
+import os, time, hashlib, random, types, StringIO
 import string, itertools
-from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
+from types import FileType,StringType,UnicodeType,BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
+
+
+class BadSessionParams(core.QTIError):
+	"""Exception raised when submitted form parameters do not fit the session."""
+	pass
 
 
 class SessionKeyMismatch(core.QTIError):
@@ -484,13 +489,15 @@ class DirectedPairValue(SingleValue):
 class FileValue(SingleValue):
 	"""Represents single value of type :py:class:`BaseType.file`."""
 	
-	def __init__(self):
+	def __init__(self,value=None):
 		super(FileValue,self).__init__()
 		self.baseType=BaseType.file
 		self.contentType=http.MediaType.FromString("application/octet-stream")
 		"""The content type of the file, a :py:class:`pyslet.rfc2616.HTTPMediaType` instance."""
 		self.fileName="data.bin"
 		"""The file name to use for the file."""
+		if value is not None:
+			self.SetValue(value)
 		
 	def __unicode__(self):
 		if self.value is None:
@@ -515,11 +522,11 @@ class FileValue(SingleValue):
 		self.fileName=name
 		if value is None:
 			self.value=None
-		elif type(value) is FileType:
+		elif isinstance(value,FileType):
 			self.value=value
-		elif type(value) is StringType:
+		elif isinstance(value,StringType):
 			self.value=StringIO.StringIO(value)
-		elif type(value) is UnicodeType:
+		elif isinstance(value,UnicodeType):
 			# Parse this value from the MIME stream.
 			raise NotImplementedError("String deserialization of BaseType.file.")
 		else:
@@ -957,7 +964,7 @@ class RecordContainer(Container):
 				else:
 					self.value[fieldIdentifier]=value		
 		else:
-			raise ValueError("Single value required, found %s"%repr(v))	
+			raise ValueError("Single value required, found %s"%repr(value))	
 
 	def __delitem__(self,fieldIdentifier):
 		if self.value:
@@ -1123,8 +1130,6 @@ class Mapping(core.QTIElement):
 		source strings."""
 		if isinstance(self.parent,ResponseDeclaration):
 			self.baseType=self.parent.baseType
-		elif isinstance(self.parent,CategorizedStatistic):
-			self.baseType=BaseType.integer
 		else:
 			self.baseType=BaseType.string
 		self.map={}
@@ -1837,10 +1842,8 @@ class ItemSessionState(SessionState):
 				if len(rName)!=2:
 					continue
 				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
+						if type(sValue) not in StringTypes:
 							raise ValueError
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
-- 
2.43.0


From b00481b166823bf86c69936be2b677182bdd72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 06/36] fix: odata2 sqlds: undefined names, wrong super calls
 and lost transactions

---
 pyslet/pyslet/odata2/sqlds.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index e0bbb2c..aef1420 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -18,6 +18,10 @@ class SQLError(Exception):
 	pass
 
 
+class SQLModelError(SQLError):
+	"""Raised when a model cannot be mapped to the database schema."""
+	pass
+
 class DatabaseBusy(SQLError):
 	"""Raised when a database connection times out."""
 	pass
@@ -93,7 +97,7 @@ class QMarkParams(SQLParams):
 class NumericParams(SQLParams):
 	"""A class for building parameter lists using ':1', ':2',... syntax"""
 	def __init__(self):
-		super(QMarkParams,self).__init__()
+		super(NumericParams,self).__init__()
 		self.params=[]
 	
 	def AddParam(self,value):
@@ -107,7 +111,7 @@ class NamedParams(SQLParams):
 	support the ordered lists of the other formats we just invent
 	parameter names using ':p1', ':p2', etc."""	
 	def __init__(self):
-		super(QMarkParams,self).__init__()
+		super(NamedParams,self).__init__()
 		self.params={}
 	
 	def AddParam(self,value):
@@ -211,8 +215,8 @@ class SQLTransaction(object):
 					logging.info("Rollback invoked for transaction following error %s",str(err))
 			except self.api.NotSupportedError:
 				if err is not None:
-					if transaction.queryCount:
-						logging.error("Data Integrity Error on TABLE %s: Rollback invoked on a connection that does not support transactions after error %s",self.tableName,str(err))
+					if self.queryCount:
+						logging.error("Data Integrity Error: Rollback invoked on a connection that does not support transactions after error %s",str(err))
 					else:
 						logging.info("Query failed following error %s",str(err))
 				pass
@@ -792,7 +796,7 @@ class SQLCollectionBase(core.EntityCollection):
 						else:
 							return fieldName
 					else:
-						raise core.EvaluationError("Unqualified property %s must refer to a simple type"%expresison.name)
+						raise core.EvaluationError("Unqualified property %s must refer to a simple type"%expression.name)
 			except KeyError:
 				raise core.EvaluationError("Property %s is not declared"%expression.name)
 		elif isinstance(expression,core.CallExpression):
@@ -1002,7 +1006,7 @@ class SQLCollectionBase(core.EntityCollection):
 		query.append(self.SQLExpression(expression.operands[0],params,','))
 		query.append(u" FROM ")
 		query.append(self.SQLExpression(expression.operands[1],params,','))
-		if len(expression.operands>2):
+		if len(expression.operands)>2:
 			query.append(u" FOR ")
 			query.append(self.SQLExpression(expression.operands[2],params,','))
 		query.append(u")")
@@ -1379,7 +1383,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				targetSet=linkEnd.otherEnd.entitySet
 				nullable,unique=fkMapping[linkEnd]
 				if len(dv.bindings)>1:
-					raise NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
+					raise edm.NavigationError("Unexpected error: found multiple bindings for foreign key constraint %s"%k)
 				binding=dv.bindings[0]
 				if not isinstance(binding,edm.Entity):
 					# just a key, grab the entity
@@ -1392,7 +1396,7 @@ class SQLEntityCollection(SQLCollectionBase):
 					if not targetEntity.exists:
 						# add this entity to it's base collection
 						with targetSet.OpenCollection() as targetCollection:
-							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction)
+							targetCollection.InsertEntitySQL(targetEntity,linkEnd.otherEnd,transaction=transaction)
 				# Finally, we have a target entity, add the foreign key to fkValues
 				for keyName in targetSet.keys:
 					fkValues.append((self.container.mangledNames[(self.entitySet.name,associationSetName,keyName)],targetEntity[keyName]))
@@ -1464,10 +1468,10 @@ class SQLEntityCollection(SQLCollectionBase):
 									targetFKValues.append((self.container.mangledNames[(targetSet.name,associationSetName,keyName)],entity[keyName]))
 								if not dv.isCollection:
 									navCollection.ClearLinks(transaction)
-								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,targetFKValues,transaction)
+								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,targetFKValues,transaction=transaction)
 							else:
 								# foreign keys are in an auxiliary table
-								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd)
+								targetCollection.InsertEntitySQL(binding,linkEnd.otherEnd,transaction=transaction)
 								if dv.isCollection:
 									navCollection.InsertLink(binding,transaction)
 								else:
@@ -1637,7 +1641,7 @@ class SQLEntityCollection(SQLCollectionBase):
 				raise KeyError
 			elif rowcount>1:
 				# whoops, that was unexpected
-				raise SQLError("Integrity check failure, non-unique key: %s"%repr(key))
+				raise SQLError("Integrity check failure, non-unique key: %s"%repr(entity.Key()))
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
@@ -1698,7 +1702,7 @@ class SQLEntityCollection(SQLCollectionBase):
 			transaction.Execute(query,params)
 			if transaction.cursor.rowcount==0:
 				# no rows matched this constraint, entity either doesn't exist or wasn't linked to the target
-				raise KeyError("Entity %s does not exist or is not linked to %s"%str(entity.GetLocation(),targetEntity.GetLocation))					
+				raise KeyError("Entity %s does not exist or is not linked to %s"%(str(entity.GetLocation()),str(targetEntity.GetLocation())))					
 			transaction.Commit()
 		except Exception as e:
 			transaction.Rollback(e)
@@ -1994,7 +1998,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 			# could be a ConstraintError if we are already linked to a
 			# different entity
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(e))
+			raise edm.NavigationError(str(e))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:			
@@ -2072,7 +2076,7 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
 			fkValues.append((self.container.mangledNames[(self.entitySet.name,self.associationSetName,k)],v))
 		try:
 			transaction.Begin()
-			self.keyCollection.InsertEntitySQL(entity,self.fromEnd.otherEnd,fkValues,transaction)
+			self.keyCollection.InsertEntitySQL(entity,self.fromEnd.otherEnd,fkValues,transaction=transaction)
 			transaction.Commit()			
 		except self.container.dbapi.IntegrityError,e:
 			transaction.Rollback(e,swallowErr=True)
@@ -2251,12 +2255,12 @@ class SQLAssociationCollection(SQLNavigationCollection):
 				# if this is a 1-1 relationship InsertEntitySQL will fail (with
 				# an unbound navigation property) so we need to suppress the
 				# back-link.
-				baseCollection.InsertEntitySQL(entity,linkEnd.otherEnd,transaction=transaction)
+				baseCollection.InsertEntitySQL(entity,self.fromEnd.otherEnd,transaction=transaction)
 			self.InsertLink(entity,transaction)
 			transaction.Commit()	
 		except self.container.dbapi.IntegrityError as e:
 			transaction.Rollback(e,swallowErr=True)
-			raise NavigationError(str(entity.GetLocation()))
+			raise edm.NavigationError(str(entity.GetLocation()))
 		except Exception as e:
 			transaction.Rollback(e)
 		finally:
-- 
2.43.0


From f0521ae4428c40e1a5a12fccb080254d72577c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 07/36] fix: odata2: undefined names and attributes in client,
 server, core and csdl error paths

---
 pyslet/pyslet/odata2/client.py |  2 +-
 pyslet/pyslet/odata2/core.py   | 50 ++++++++++++++++------------------
 pyslet/pyslet/odata2/csdl.py   | 15 +++++-----
 pyslet/pyslet/odata2/server.py | 17 ++++++------
 4 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 520df7b..5fdc609 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -656,7 +656,7 @@ class Client(app.Client):
 					if f.Title:
 						self.feeds[f.Title.GetValue()]=url
 		else:
-			raise InvalidServiceDocument(str(serviceRoot))
+			raise core.InvalidServiceDocument(str(serviceRoot))
 		self.pathPrefix=self.serviceRoot.absPath
 		if self.pathPrefix[-1]==u"/":
 			self.pathPrefix=self.pathPrefix[:-1]
diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..abb277e 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -390,7 +390,7 @@ class BinaryExpression(CommonExpression):
 				op=","
 				opSuffix=")"
 			else:
-				raise ValueError("Can't format %s as a binary operator"&Operator.EncodeValue(self.operator))
+				raise ValueError("Can't format %s as a binary operator"%Operator.EncodeValue(self.operator))
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
 		lValue=self.operands[0]
@@ -2313,7 +2313,7 @@ def EntityPropertyValueInJSON(v):
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		# a strange format based on ticks, by definition, DateTime has no offset
 		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
-		dir,offset=v.GetZone()
+		dir,offset=v.value.GetZone()
 		if dir>0:
 			s=u"+"
 		else:
@@ -2345,25 +2345,23 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromLiteral(jsonValue)
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
-			if '+' in ticks:
-				# split by +
-				ticks=ticks.split('+')
-				zDir=1
-			elif '-' in ticks:
-				# split by -
-				ticks=ticks.split('-')
-				zDir=-1
-			else:
-				zDir=0
-			if zDir:
-				if len(ticks)!=2:
-					raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)
-				zOffset=int(ticks[1])
+			ticks=jsonValue[6:-2]
+			# the offset is optional, a leading sign belongs to the ticks
+			split=max(ticks.rfind('+'),ticks.rfind('-'))
+			if split>0:
+				zOffset=int(ticks[split+1:])
+				if zOffset==0:
+					zDir=0
+				elif ticks[split]=='+':
+					zDir=1
+				else:
+					zDir=-1
+				ticks=ticks[:split]
 			else:
-				zOffset=0
-			t,overflow=Time().Offset(seconds=int(ticks[0])/1000.0).WithZone(zDir,zOffset//60,zOffset%60)
-			d=Date(absoluteDay=BASE_DAY+overflow)
+				zDir=zOffset=0
+			t,overflow=iso.Time().Offset(seconds=int(ticks)/1000.0)
+			t=t.WithZone(zDir,zOffset//60,zOffset%60)
+			d=iso.Date(absoluteDay=BASE_DAY+overflow)
 			v.SetFromValue(iso.TimePoint(date=d,time=t))
 		else:
 			raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)			
@@ -2827,6 +2825,7 @@ class Link(atom.Link):
 		"""Given a :py:class:`csdl.DeferredProperty` instance, adds an expansion if one is present in the link"""
 		if self.Inline is not None:
 			targetEntitySet=deferred.Target()
+			entries=[]
 			with targetEntitySet.OpenCollection() as collection:
 				if self.Inline.Entry is not None:
 					entity=collection.NewEntity()
@@ -2834,7 +2833,6 @@ class Link(atom.Link):
 					self.Inline.Entry.GetValue(entity)
 					entries=[entity]
 				elif self.Inline.Feed is not None:
-					entries=[]
 					for entry in self.Inline.Feed.FindChildrenDepthFirst(Entry,subMatch=False):
 						entity=collection.NewEntity()
 						entity.exists=exists
@@ -3110,11 +3108,11 @@ class Entry(atom.Entry):
 						targetElement.SetValue(unicode(dtOffset))						
 					elif isinstance(v,edm.StringValue):
 						try:
-							dtOffset=iso8601.TimePoint.FromString(v.value)
+							dtOffset=iso.TimePoint.FromString(v.value)
 							if dtOffset.GetZone()[0] is None:
 								dtOffset=dtOffset.WithZone(zDirection=0)
 							targetElement.SetValue(unicode(dtOffset))
-						except iso8601.DateTimeError:
+						except iso.DateTimeError:
 							# do nothing
 							pass
 				elif isinstance(v,edm.SimpleValue) and v:
@@ -3200,7 +3198,7 @@ class Entry(atom.Entry):
 						feed=ExpandedEntityCollection(fromEntity=entity,name=k,entitySet=targetSet,entityList=feed)
 						link.Expand(feed)
 					elif len(feed)>1:
-						raise NavigationError("Multiple bindings found for navigation property %s.%s"%(entitySet.name,k))
+						raise edm.NavigationError("Multiple bindings found for navigation property %s.%s"%(entity.entitySet.name,k))
 					else:
 						link.Expand(feed[0])
 		# Now set the new property values in the properties element
@@ -3234,11 +3232,11 @@ class Entry(atom.Entry):
 				targetElement.SetValue(unicode(dtOffset))						
 			elif isinstance(v,edm.StringValue):
 				try:
-					dtOffset=iso8601.TimePoint.FromString(v.value)
+					dtOffset=iso.TimePoint.FromString(v.value)
 					if dtOffset.GetZone()[0] is None:
 						dtOffset=dtOffset.WithZone(zDirection=0)
 					targetElement.SetValue(unicode(dtOffset))
-				except iso8601.DateTimeError:
+				except iso.DateTimeError:
 					# do nothing
 					pass
 		elif isinstance(v,edm.SimpleValue) and v:
diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..1fbdd11 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -391,8 +391,9 @@ class NameTableMixin(DictionaryLike):
 		compounded keys from nested scopes."""
 		result=len(self.nameTable)
 		for value in self.nameTable.itervalues():
-			if isinstance(value,NameTableMixim):
+			if isinstance(value,NameTableMixin):
 				result=result+len(value)
+		return result
 			
 	def _SplitKey(self,key):
 		sKey=key.split(".")
@@ -923,10 +924,10 @@ class SimpleValue(EDMValue):
 	@classmethod
 	def Copy(cls,value):
 		"""Constructs a new SimpleValue instance by copying *value*"""
-		if self.pDef:
-			result=value.__class__(self.pDef)
+		if value.pDef:
+			result=value.__class__(value.pDef)
 		else:
-			result=EdmValue.NewSimpleValue(self.typeCode)
+			result=EDMValue.NewSimpleValue(value.typeCode)
 		result.value=value.value
 		return result
 
@@ -2294,7 +2295,7 @@ class Entity(TypeInstance):
 					t.SetFromValue(t.value+1)
 				else:
 					t.SetFromValue(1)
-			elif isinstance(t,(DateTimeValue,DateTimeOffset)):
+			elif isinstance(t,(DateTimeValue,DateTimeOffsetValue)):
 				oldT=t.value
 				t.SetFromValue(iso8601.TimePoint.FromNowUTC())
 				if t.value==oldT:
@@ -2991,7 +2992,7 @@ class FunctionEntityCollection(EntityCollection):
 
 	def Expand(self,expand,select=None):
 		"""This option is not supported on function results"""
-		raise NotImplmentedError("Expand/Select option on Function result")
+		raise NotImplementedError("Expand/Select option on Function result")
 
 	def __setitem__(self,key,value):
 		raise NotImplementedError("Function %s is read-only"%self.function.name) 
@@ -3360,7 +3361,7 @@ class Type(NameTableMixin,CSDLElement):
 		"""Returns the full name of this type, including the schema namespace prefix."""
 		schema=self.FindParent(Schema)
 		if schema is None:
-			return name
+			return self.name
 		else:
 			return string.join((schema.name,'.',self.name),'')
 		
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b49e765..6f42427 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, urllib, string, codecs, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -269,7 +269,7 @@ class Server(app.Server):
 		identify an enity set, entity, complex or simple value."""
 		if not href.IsAbsolute():
 			# resolve relative to the service root
-			href=URIFactory.Resolve(self.serviceRoot,href)
+			href=uri.URIFactory.Resolve(self.serviceRoot,href)
 		# check the canonical roots
 		if not self.serviceRoot.GetCanonicalRoot().Match(href.GetCanonicalRoot()):
 			# This isn't even for us
@@ -642,7 +642,7 @@ class Server(app.Server):
 			if isinstance(input.root,URI):
 				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
 			else:
-				raise InvalidData("Unable to parse link from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse link from request body (found <%s>)"%str(input.root.xmlname))
 		else:
 			# must be a json object
 			try:
@@ -749,7 +749,7 @@ class Server(app.Server):
 				# we have an entry, which is a relief!
 				input.root.GetValue(entity,self.GetResourceFromURI,True)
 			else:
-				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%str(input.root.xmlname))
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
@@ -793,7 +793,7 @@ class Server(app.Server):
 			if isinstance(input.root,Property):
 				input.root.GetValue(value)
 			else:
-				raise InvalidData("Unable to parse property from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse property from request body (found <%s>)"%str(input.root.xmlname))
 		else:
 			if isinstance(value,edm.SimpleValue):
 				ReadEntityPropertyInJSON1(value,input)
@@ -832,13 +832,14 @@ class Server(app.Server):
 				
 	def ReadDereferencedValue(self,value,environ):
 		encoding=None
+		requestType=None
 		if "CONTENT_TYPE" in environ:
 			requestType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 		if value.mType is None:
 			acceptType=False
 			if isinstance(value,edm.BinaryValue):
 				if requestType:
-					for r in DeferenceBinaryRanges:
+					for r in self.DereferenceBinaryRanges:
 						if r.MatchMediaType(requestType):
 							acceptType=True
 				else:
@@ -854,12 +855,12 @@ class Server(app.Server):
 				acceptType=http.MediaRange.FromString(value.mType).MatchMediaType(requestType)
 			else:
 				# assume the user knows what they're doing!
-				requestType=value.mType
+				requestType=http.MediaType.FromString(value.mType)
 				acceptType=True
 		if not acceptType:
 			raise InvalidData("Unable to parse property value from request body (found <%s>)"%str(requestType))
 		data=app.InputWrapper(environ).read()
-		if requestType.type=="text":
+		if requestType is not None and requestType.type=="text":
 			encoding=requestType.parameters.get('charset',(None,None))[1]
 			if encoding is None:
 				encoding="iso-8859-1"
-- 
2.43.0


From 911a5b461af779c7724b3f0eb61e5204b4815562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 08/36] fix: rfc2617: credential matching uses the attributes
 challenges have

---
 pyslet/pyslet/rfc2617.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 6c606f3..f7c72d9 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -7,6 +7,11 @@ from pyslet.rfc2616_core import *
 from pyslet.rfc2616_params import *
 
 
+class HTTPInvalidBasicCredentials(HTTPException):
+	"""Raised when basic credentials can't be parsed"""
+	pass
+
+
 class Challenge(object):
 	"""Represents an HTTP authentication challenge.
 	
@@ -148,7 +153,7 @@ class Credentials(object):
 		if self.protectionSpace!=challenge.protectionSpace:
 			return False
 		if self.realm:
-			if self.realm!=challenge.realm:
+			if self.realm!=challenge["realm"]:
 				return False
 		return True
 
@@ -192,7 +197,7 @@ class BasicCredentials(Credentials):
 		self.pathPrefixes=[]	#: a list of path-prefixes for which these credentials are known to be good 
 		
 	def SetBasicCredentials(self,basicCredentials):
-		credentials=base64.b64decode(basicCredentials).split(':')
+		credentials=base64.b64decode(basicCredentials).split(':',1)
 		if len(credentials)==2:
 			self.userid,self.password=credentials
 		else:
@@ -201,7 +206,7 @@ class BasicCredentials(Credentials):
 	def Match(self,challenge=None,url=None):
 		if challenge is not None:
 			# must match the challenge
-			if not super(BasicCredentials,self).Match(challenge):
+			if not super(BasicCredentials,self).MatchChallenge(challenge):
 				return False
 		if url is not None:
 			# must match the url
-- 
2.43.0


From 7a9e8480b5cbff8a1218e8d934746bbdb4d2d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 09/36] fix: rfc2616: unbound names and wrong calls on error
 paths, header parser progress

---
 pyslet/pyslet/rfc2616.py         | 17 ++++++++++-----
 pyslet/pyslet/rfc2616_core.py    | 14 +++++++++----
 pyslet/pyslet/rfc2616_headers.py | 36 +++++++++++++++++++++++++++++++-
 pyslet/pyslet/rfc2616_params.py  |  4 ++--
 4 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..93ffc68 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -210,7 +210,7 @@ class Connection(object):
 					try:
 						r,w,e=self.socketSelect([self.socketFile],[],[self.socketFile],0)
 					except select.error, err:
-						r=[]
+						r=e=[]
 						self.Close(err)
 					if e:
 						# there is an error on our socket...
@@ -490,6 +490,7 @@ class Connection(object):
 			self.socket=None
 			self.socketFile=None
 			self.socketSelect=select.select
+		sNew=None
 		try:
 			for target in self.manager.DNSLookup(self.host,self.port):
 				family, socktype, protocol, canonname, address = target
@@ -511,7 +512,7 @@ class Connection(object):
 			with self.connectionLock:
 				if self.connectionClosed:
 					# This connection has been killed
-					self._CloseSocket(newS)
+					self._CloseSocket(sNew)
 					logging.error("Connection killed while connecting to %s",self.host)
 					raise HTTPException("Connection closed")
 				else:
@@ -923,6 +924,12 @@ class HTTPRequestManager(object):
 		with self.managerLock:
 			self.dnsCache={}
 			
+	def RemoveCredentials(self,credentials):
+		"""Removes *credentials* from this manager, it is not an error if
+		they have already been removed."""
+		with self.managerLock:
+			self.credentials=filter(lambda c:c is not credentials,self.credentials)
+			
 	def FindCredentials(self,challenge):
 		"""Searches for credentials that match *challenge*"""
 		logging.debug("HTTPRequestManager searching for credentials in %s with challenge %s",challenge.protectionSpace,str(challenge))
@@ -1029,7 +1036,7 @@ class HTTPMessage(object):
 		if allowed is None:
 			self.SetHeader("Allow",None)
 		else:
-			if type(acceptValue) in StringTypes:
+			if type(allowed) in StringTypes:
 				allowed=Allow.FromString(allowed)
 			if not isinstance(allowed,Allow):
 				raise TypeError
@@ -1250,7 +1257,7 @@ class HTTPMessage(object):
 		if date is None:
 			self.SetHeader("Date",None)
 		else:
-			self.SetHeader("Date",FormatDate(date))
+			self.SetHeader("Date",str(date))
 				
 	def GetExpectContinue(self):
 		fieldValue=self.GetHeader("Expect")
@@ -1928,7 +1935,7 @@ class HTTPResponse(HTTPMessage):
 					self.currHeader=ch
 				else:
 					# badly formed header line
-					raise HTTP2616ProtocolError("Badly formed header line: %s"%h)
+					raise HTTPException("Badly formed header line: %s"%h)
 			return True
 
 	def RecvBytes(self,data):
diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..1123fdc 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -74,9 +74,9 @@ def IsHEXDIGITS(c):
 	"""Given a string, returns True if all characters match the production for HEX.
 	
 	Empty strings return False"""
-	if src:
-		for c in src:
-			if not IsHEX(c):
+	if c:
+		for ch in c:
+			if not IsHEX(ch):
 				return False
 		return True
 	else:	
@@ -377,6 +377,9 @@ class WordParser(object):
 					sp=True
 			if sp:
 				self.words.append(SP)
+			if p.theChar is None:
+				# trailing LWS only
+				break
 			if IsSEPARATOR(p.theChar):
 				if p.theChar=="(":
 					self.words.append(p.ParseComment(True))
@@ -386,7 +389,10 @@ class WordParser(object):
 					self.words.append(p.theChar)
 					p.NextChar()
 			else:
-				self.words.append(p.ParseToken())
+				token=p.ParseToken()
+				if token is None:
+					raise SyntaxError("Unexpected character in header: %s"%repr(p.theChar))
+				self.words.append(token)
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 6657966..4e83d83 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -615,7 +615,7 @@ class CacheControl(object):
 	def FromString(cls,source):
 		"""Create a Cache-Control value from a *source* string."""
 		p=HeaderParser(source)
-		cc=p.ParseCacheControl()
+		cc=p.RequireCacheControl()
 		p.RequireEnd("Cache-Control header")
 		return cc
 	
@@ -839,6 +839,40 @@ class HeaderParser(ParameterParser):
 				break
 		return cls(*items)
 
+	def RequireCacheControl(self):
+		"""Parses the directives of a Cache-Control header, returning a
+		:py:class:`CacheControl` instance.  Raises SyntaxError if no
+		directive is found."""
+		directives=[]
+		self.ParseSP()
+		while self.cWord:
+			d=self.ParseToken()
+			if d is None:
+				if self.ParseSeparator(','):
+					self.ParseSP()
+					continue
+				break
+			self.ParseSP()
+			if self.ParseSeparator('='):
+				self.ParseSP()
+				if self.IsQuotedString():
+					v=self.ParseQuotedString()
+					if d.lower() in ("private","no-cache"):
+						# a quoted list of field names
+						v=tuple(filter(None,map(lambda x:x.strip(),v.split(','))))
+				else:
+					v=self.RequireToken("directive value")
+				directives.append((d,v))
+				self.ParseSP()
+			else:
+				directives.append(d)
+			if self.cWord:
+				self.RequireSeparator(',',"Cache-Control directive")
+				self.ParseSP()
+		if not directives:
+			self.Error("Cache-Control directive")
+		return CacheControl(*directives)
+
 	def RequireContentRangeSpec(self):
 		"""Parses a content-range-spec, returning an
 		:py:class:`ContentRange` instance."""
diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..6c1ad63 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -552,7 +552,7 @@ class EntityTag:
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.week else "False")
+		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.weak else "False")
 			
 	def __cmp__(self,other):
 		"""Entity-tags are compared case sensitive."""
@@ -590,7 +590,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
-- 
2.43.0


From cf66f605065c64f0250e4e6d1a23bfcacd39a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 10/36] fix: rfc2234, rfc2396, rfc4287, rfc5023: undefined
 names

---
 pyslet/pyslet/rfc2234.py | 12 ++++++------
 pyslet/pyslet/rfc2396.py |  2 +-
 pyslet/pyslet/rfc4287.py |  2 +-
 pyslet/pyslet/rfc5023.py |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/rfc2234.py b/pyslet/pyslet/rfc2234.py
index 4f9aee6..17d1880 100644
--- a/pyslet/pyslet/rfc2234.py
+++ b/pyslet/pyslet/rfc2234.py
@@ -181,7 +181,7 @@ class RFC2234Parser:
 		if self.parent:
 			self.parent.Warning(msgStr)
 		else:
-			self.errors.append(RFCWarning(msgStr,self.lineNum,self.dataPos-self.basePos))
+			self.errors.append(RFCParserWarning(msgStr,self.lineNum,self.dataPos-self.basePos))
 			if self.validationMode==RFC2234Parser.kStopOnWarnings:
 				raise self.errors[-1]
 	
@@ -757,18 +757,18 @@ class RFC2234ABNFRuleBase:
 					terminalStr=rule[2]
 					match=data[pos:pos+len(terminalStr)]
 					if match!=terminalStr:
-						raise RFCValidyError("in production "+ruleName)
+						raise RFCValidityError("in production "+ruleName)
 					pos=pos+len(terminalStr)
 				elif ruleType==kLiteralRule:
 					literalStr=rule[2].lower()
 					match=data[pos:pos+len(literalStr)].lower()
 					if match!=literalStr:
-						raise RFCValidyError("in production "+ruleName)
+						raise RFCValidityError("in production "+ruleName)
 					pos=pos+len(literalStr)
 				elif ruleType==kValueRangeRule:
 					c=data[pos:pos+1]
 					if not (c and ord(c)>=rule[2] and ord(c)<=rule[3]):
-						raise RFCValidyError("in production "+ruleName)
+						raise RFCValidityError("in production "+ruleName)
 					pos=pos+1
 				elif ruleType==kSequenceRule:
 					if rulePos is None:
@@ -813,7 +813,7 @@ class RFC2234ABNFRuleBase:
 				else:
 					raise RFC2234RuleError("internal rule-base error")
 				parserStack.append((pos,ruleStack))
-			except RFCValidyError, err:
+			except RFCValidityError, err:
 				if pos>errorPos:
 					maxError=err
 					errorPos=pos
@@ -1005,7 +1005,7 @@ class RFC2234ABNFParser (RFC2234CoreParser):
 			if self.theChar==")":
 				self.NextChar()
 				return result
-		self.Syntaxerror("expected '('")
+		self.SyntaxError("expected '('")
 	
 	def ParseOption (self):
 		if self.theChar=="[":
diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..8af6eeb 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -1072,7 +1072,7 @@ class FileURL(ServerBasedURL):
 			fs=vfs.GetFileSystemByName(self.host)
 			if fs is None:
 				if vfs.defaultFS.supports_unc:
-					fs=defaultNS
+					fs=vfs.defaultFS
 					uncRoot=decode('\\\\%s'%self.host)
 				else:
 					raise ValueError("Unrecognized host in file URL: %s"%self.host)
diff --git a/pyslet/pyslet/rfc4287.py b/pyslet/pyslet/rfc4287.py
index f0d41fa..526ae51 100644
--- a/pyslet/pyslet/rfc4287.py
+++ b/pyslet/pyslet/rfc4287.py
@@ -494,7 +494,7 @@ class Entry(Entity):
 	def Reset(self):
 		self.AtomId.Reset()
 		if self.Content:
-			self.Content.DetatchFromParent()
+			self.Content.DetachFromParent()
 			self.Content=None
 		if self.Published:
 			self.Published.DetachFromParent()
diff --git a/pyslet/pyslet/rfc5023.py b/pyslet/pyslet/rfc5023.py
index 76075ec..0816d25 100644
--- a/pyslet/pyslet/rfc5023.py
+++ b/pyslet/pyslet/rfc5023.py
@@ -147,7 +147,7 @@ class Document(atom.AtomDocument):
 	
 	def ValidateMimeType(self,mimetype):
 		"""Checks *mimetype* against the mime types given in the APP or Atom specifications."""
-		return mimetype in APP_MIMETYPES or atom.AtomDocument.ValidateMimeType(self,mimetype)
+		return mimetype in APP_MIMETYPES
 	
 	@classmethod	
 	def GetElementClass(cls,name):
-- 
2.43.0


From e8d0ab77ce0bb7df56c30a6ac018b17e8bfd2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 11/36] fix: xml: undefined names, encoding detection table and
 parser class lookups

---
 pyslet/pyslet/xml20081126/structures.py | 19 ++++++++++---------
 pyslet/pyslet/xmlnames20091208.py       |  9 ++++-----
 pyslet/pyslet/xsdatatypes20041028.py    |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..b65843e 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -561,6 +561,7 @@ def RegisterDocumentClass(docClass,rootName,publicID=None,systemID=None):
 	-	*systemID*
 		is the system ID of the doctype, this will usually be None indicating
 		that the document class can match any system ID."""
+	from pyslet.xml20081126.parser import XMLParser
 	XMLParser.DocumentClassTable[(rootName,publicID,systemID)]=docClass
 
 		
@@ -880,7 +881,7 @@ class XMLDTD(object):
 		
 		The method returns an instance of :py:class:`XMLAttributeDefinition` or
 		None if no attribute matching this description has been declared."""		
-		aList=self.attributeLists.get(name,None)
+		aList=self.attributeLists.get(elementName,None)
 		if aList:
 			return aList.get(attributeName,None)
 		else:
@@ -2635,7 +2636,7 @@ class XMLEntity(object):
 		if self.location:
 			self.OpenURI(self.location)
 		else:
-			raise UnimplementedError
+			raise XMLUnimplementedError
 	
 	def IsOpen(self):
 		"""Returns True if the entity is open for reading."""
@@ -2721,7 +2722,7 @@ class XMLEntity(object):
 				if mtype is None:
 					# We'll attempt to do this with xml and utf8
 					charset='utf8'
-					raise UnimplementedError
+					raise XMLUnimplementedError
 				else:
 					self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 					respEncoding=mtype.parameters.get('charset',None)
@@ -2740,7 +2741,7 @@ class XMLEntity(object):
 			else:	
 				raise XMLUnexpectedHTTPResponse(str(req.status)+" "+str(req.response.reason))
 		else:
-			raise XMLUnsupportedScheme			
+			raise XMLUnsupportedSchemeError(str(src))
 		
 	def OpenHTTPResponse(self,src,encoding='utf-8'):
 		"""Opens the entity from an HTTP response passed in *src*.
@@ -2756,7 +2757,7 @@ class XMLEntity(object):
 		if mtype is None:
 			# We'll attempt to do this with xml and utf8
 			charset='utf8'
-			raise UnimplementedError
+			raise XMLUnimplementedError
 		else:
 			self.mimetype=mtype.type.lower()+'/'+mtype.subtype.lower()
 			respEncoding=mtype.parameters.get('charset',None)
@@ -2840,8 +2841,8 @@ class XMLEntity(object):
 		'\x00\x3c\x00\x00':('utf_32_le',0,False),		# UCS-4 or other encoding with an unusual 32-bit code unit		
 		'\x00\x3c\x00\x3f':('utf_16_be',0,False),		# UTF-16BE or big-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
 		'\x3c\x00\x3f\x00':('utf_16_le',0,False),		# UTF-16LE or little-endian ISO-10646-UCS-2 or other encoding with a 16-bit code unit
-		'\3c\x3f\x78\x6D':('utf_8',0,False),			# UTF-8, ISO 646, ASCII or similar
-		'\4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
+		'\x3c\x3f\x78\x6D':('utf_8',0,False),			# UTF-8, ISO 646, ASCII or similar
+		'\x4c\x6f\xa7\x94':('cp500',0,False)				# EBCDIC (in some flavor)
 		}
 					
 	def AutoDetectEncoding(self,srcFile):
@@ -2856,7 +2857,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
@@ -2967,7 +2968,7 @@ class XMLDeclaredEntity(XMLEntity):
 		elif type(self.definition) is UnicodeType:
 			self.OpenUnicode(self.definition)
 		elif isinstance(self.definition,XMLExternalID):
-			XMLEntity.Open(self)	# open from location or raise UnimplementedError
+			XMLEntity.Open(self)	# open from location or raise XMLUnimplementedError
 			# Now to handle the text declaration
 			from pyslet.xml20081126.parser import XMLParser
 			p=XMLParser(self)
diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 437d1b9..81367f9 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -554,15 +554,14 @@ class XMLNSParser(XMLParser):
 
 		If no document class can be found, :py:class:`XMLNSDocument` is
 		returned."""
-		rootName=dtd.name
 		if expandedName[0] is None:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
+			docClass=self.NSDocumentClassTable.get(expandedName,None)
 		else:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
+			docClass=self.NSDocumentClassTable.get(expandedName,None)
 			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((expandedName[0],None),None)
+				docClass=self.NSDocumentClassTable.get((expandedName[0],None),None)
 			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((None,expandedName[1]),None)
+				docClass=self.NSDocumentClassTable.get((None,expandedName[1]),None)
 		if docClass is None:
 			docClass=XMLNSDocument
 		return docClass
diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 030eb0c..44c61a6 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -533,8 +533,8 @@ class Enumeration:
 		result={}
 		for s in src.split():
 			sv=decoder(s)
-		if not sv in result:
-			result[sv]=s
+			if not sv in result:
+				result[sv]=s
 		return result
 		 
 	@classmethod
-- 
2.43.0


From 2638648029b5cda250cef8c42eda04ba420281b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 12/36] fix: odata2 csdl: raise exceptions, not strings

---
 pyslet/pyslet/odata2/csdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 1fbdd11..6c7dfe9 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1244,14 +1244,14 @@ class TimeValue(SimpleValue):
 			self.value=newValue			
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
 			if newValue<0:
-				raise("Can't set Time from %.3f"%float(newValue))
+				raise ValueError("Can't set Time from %.3f"%float(newValue))
 			tValue=iso8601.Time()
 			if type(newValue) in (IntType,LongType):
 				tValue,days=tValue.Offset(newValue)
 			else:
 				tValue,days=tValue.Offset(float(newValue))
 			if days>0:
-				raise("Can't set Time from %.3f (overflow)"%float(newValue))
+				raise ValueError("Can't set Time from %.3f (overflow)"%float(newValue))
 			self.value=tValue
 		else:
 			raise TypeError("Can't set Time from %s"%repr(newValue))
@@ -3579,7 +3579,7 @@ class AssociationEnd(CSDLElement):
 			self.entityType=self.otherEnd=None
 			self.entityType=scope[self.type]
 			if not isinstance(self.entityType,EntityType):
-				raise "AssociationEnd not bound to EntityType (%s)"%self.type
+				raise KeyError("AssociationEnd not bound to EntityType (%s)"%self.type)
 			if not isinstance(self.parent,Association) or not len(self.parent.AssociationEnd)==2:
 				raise ModelIncomplete("AssociationEnd has missing or incomplete parent (Role=%s)"%self.name)
 			for iEnd in self.parent.AssociationEnd:
-- 
2.43.0


From f08f857c73bad017854eebe56688a4cabfa16a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 13/36] fix: odata2 server: media stream Content-Length is a
 string, stream opened before the response starts

---
 pyslet/pyslet/odata2/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 6f42427..ab51952 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -782,10 +782,12 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'media stream type refused, try application/octet-stream',406)
 		responseHeaders.append(("Content-Type",str(responseType)))
-		responseHeaders.append(("Content-Length",entity.GetStreamSize()))
+		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
+		# get the stream first, an error can't be reported once the response has started
+		data=entity.GetStreamGenerator()
 		start_response("%i %s"%(200,"Success"),responseHeaders)
-		return entity.GetStreamGenerator()
+		return data
 
 	def ReadValue(self,value,environ):
 		input=self.ReadXMLOrJSON(environ)
-- 
2.43.0


From e552590204925061182622a9f226b19226670d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 14/36] fix: start a queued HTTP request only when it may be
 sent, and only once

---
 pyslet/pyslet/rfc2616.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 93ffc68..e506c8c 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -156,7 +156,7 @@ class Connection(object):
 				if self.response is None or self.IDEMPOTENT.get(request.method,False):
 					# If we are waiting for a response we only accept idempotent methods
 					self.requestQueue=self.requestQueue[1:]
-				self._StartRequest(request)
+					self._StartRequest(request)
 			if self.request or self.response:
 				if self.socket is None:
 					self.NewSocket()
-- 
2.43.0


From a9582d0567b5cc59342f3cd790fc8eb3b2b54131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 15/36] fix: HTTP message headers are only read under the
 message's lock

---
 pyslet/pyslet/rfc2616.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index e506c8c..0661f65 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1563,8 +1563,10 @@ class HTTPRequest(HTTPMessage):
 				self.SetHeader('Authorization',str(credentials))			
 		hList=self.GetHeaderList()
 		for hKey in hList:
-			hName,hValue=self.headers[hKey]
-			buffer.append("%s: %s\r\n"%(hName,hValue))
+			with self.lock:
+				header=self.headers.get(hKey,None)
+			if header is not None:
+				buffer.append("%s: %s\r\n"%tuple(header))
 		buffer.append("\r\n")
 		return string.join(buffer,'')
 	
@@ -1630,7 +1632,7 @@ class HTTPRequest(HTTPMessage):
 		and process the data."""
 		logging.debug("Request: %s %s %s",self.method,self.url,str(self.protocolVersion))
 		logging.debug("Got Response: %i %s",self.response.status,self.response.reason)
-		logging.debug("Response headers: %s",repr(self.response.headers))
+		logging.debug("Response headers: %s",repr([(h,self.response.GetHeader(h)) for h in self.response.GetHeaderList()]))
 		pass
 		
 	def WriteResponse(self,data):
-- 
2.43.0


From 94e3c49514d34c8e0499eaab3493eed66ef09c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 16/36] fix: in-memory collections hold the container lock over
 each check and the change that depends on it

---
 pyslet/pyslet/odata2/memds.py | 41 +++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 304bab0..784414e 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -396,13 +396,13 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		try:
-			key=entity.Key()
-		except KeyError:
-			# if the entity doesn't have a key, autogenerate one
-			key=self.entityStore.NextKey()
-			entity.SetKey(key)
 		with self.entityStore.container.lock:
+			try:
+				key=entity.Key()
+			except KeyError:
+				# if the entity doesn't have a key, autogenerate one
+				key=self.entityStore.NextKey()
+				entity.SetKey(key)
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
 			if key in self:
@@ -447,6 +447,10 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
+		with self.entityStore.container.lock:
+			self._CascadeDelete(key)
+
+	def _CascadeDelete(self,key):
 		if not self.entityStore.StartDeletingEntity(key):
 			# we're already being deleted so do nothing
 			return
@@ -514,7 +518,7 @@ class NavigationCollection(odata.NavigationCollection):
 	def InsertEntity(self,entity):
 		"""Inserts a new *entity* into the target entity set *and*
 		simultaneously creates a link to it from the source entity."""
-		with self.entitySet.OpenCollection() as baseCollection:
+		with self.associationIndex.container.lock, self.entitySet.OpenCollection() as baseCollection:
 			baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
 			self[entity.Key()]=entity
 
@@ -552,6 +556,10 @@ class NavigationCollection(odata.NavigationCollection):
 		raise KeyError(key)
 		
 	def __setitem__(self,key,value):
+		with self.associationIndex.container.lock:
+			self._SetLink(key,value)
+
+	def _SetLink(self,key,value):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			# no operation
@@ -578,15 +586,20 @@ class NavigationCollection(odata.NavigationCollection):
 		#	constraint violation
 		if self.fromMultiplicity==edm.Multiplicity.One or self.toMultiplicity==edm.Multiplicity.One:
 			raise edm.NavigationConstraintError("Can't remove a required link")
-		resultSet=self.lookupMethod(self.key)
-		if key not in resultSet:
-			raise KeyError
-		if self.reverse:
-			self.associationIndex.RemoveLink(key,self.key)
-		else:
-			self.associationIndex.RemoveLink(self.key,key)
+		with self.associationIndex.container.lock:
+			resultSet=self.lookupMethod(self.key)
+			if key not in resultSet:
+				raise KeyError
+			if self.reverse:
+				self.associationIndex.RemoveLink(key,self.key)
+			else:
+				self.associationIndex.RemoveLink(self.key,key)
 
 	def Replace(self,entity):
+		with self.associationIndex.container.lock:
+			self._ReplaceLinks(entity)
+
+	def _ReplaceLinks(self,entity):
 		key=entity.Key()
 		resultSet=list(self.lookupMethod(self.key))
 		if resultSet==[key]:
-- 
2.43.0


From 231896098dd768e860f559f25d826d06a4f5e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 17/36] fix: replacing links in memory checks the entity and
 its other links first

---
 pyslet/pyslet/odata2/memds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 784414e..ca6bcbb 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -605,6 +605,10 @@ class NavigationCollection(odata.NavigationCollection):
 		if resultSet==[key]:
 			# nothing to do!
 			return
+		# forces a check of entity to ensure it is good
+		self.collection[key]=entity
+		if key not in resultSet and self.fromMultiplicity!=edm.Multiplicity.Many and self.rLookupMethod(key):
+			raise edm.NavigationConstraintError("Entity %s is already bound through this association"%entity.GetLocation())
 		if self.fromMultiplicity==edm.Multiplicity.One:
 			if resultSet:
 				# we can't delete these links because we are required
-- 
2.43.0


From 1cb314c71100994faab85a3b67139d9494421b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 18/36] fix: a request waiting for a connection is refused when
 the manager closes

---
 pyslet/pyslet/rfc2616.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 0661f65..434e2a0 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -646,9 +646,10 @@ class HTTPRequestManager(object):
 		threadTarget=(threadId,request.scheme,request.hostname,request.port)
 		target=(request.scheme,request.hostname,request.port)
 		with self.managerLock:
-			if self.closing:
-				raise ConnectionClosed
 			while True:
+				# checked on every pass, we may have waited below
+				if self.closing:
+					raise ConnectionClosed
 				# Step 1: search for an active connection to the same
 				# target already bound to our thread
 				if threadTarget in self.cActiveThreadTargets:
-- 
2.43.0


From 2bd8bf83add9477cf894e8bea538a3c4466df630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 19/36] fix: the database module lock is released when a
 connection can't be opened

---
 pyslet/pyslet/odata2/sqlds.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index aef1420..fa71aaf 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -2911,7 +2911,7 @@ class SQLEntityContainer(object):
 				elif len(self.cPoolUnlocked)+len(self.cPoolLocked)<self.cPoolMax:
 					# Add a new connection
 					cLock=SQLConnectionLock(self.connectionLocker)
-					cLock.dbc=self.OpenConnection()
+					cLock.dbc=self._OpenOrRelease()
 				elif self.cPoolUnlocked:
 					# take a connection that doesn't belong to us, popped at random
 					oldThreadId,cLock=self.cPoolUnlocked.popitem()
@@ -2920,7 +2920,7 @@ class SQLEntityContainer(object):
 					else:
 						logging.debug("Thread[%i] closed an unused database connection (max connections reached)",oldThreadId)
 						cLock.dbc.close()	# is it ok to close a connection from a different thread?
-						cLock.dbc=self.OpenConnection()
+						cLock.dbc=self._OpenOrRelease()
 				else:
 					now=time.time()
 					if timeout is not None and now>start+timeout:
@@ -2941,6 +2941,15 @@ class SQLEntityContainer(object):
 		self.moduleLock.release()
 		return None
 						
+	def _OpenOrRelease(self):
+		# used by AcquireConnection with the module lock acquired; on
+		# failure there will be no connection for the caller to release
+		try:
+			return self.OpenConnection()
+		except:
+			self.moduleLock.release()
+			raise
+	
 	def ReleaseConnection(self,c):
 		threadId=threading.current_thread().ident
 		with self.cPoolLock:
-- 
2.43.0


From 64b9be6a86bcdd6b6249f4d5a5c4e02205ef99dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 20/36] fix: closing a database waits for connections in use to
 be released and ends when their threads are gone

---
 pyslet/pyslet/odata2/sqlds.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index fa71aaf..bdfdacf 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -3000,9 +3000,11 @@ class SQLEntityContainer(object):
 				badLock.locked-=1
 				logging.warn("Thread[%i] successfully released a database connection from the dead pool",threadId)
 				if not badLock.locked:
-					# no need to notify other threads as we close this connection for safety
+					# we close this connection for safety, only a thread
+					# in our own close method could be waiting for this
 					badLock.dbc.close()
 					del self.cPoolDead[iDead]
+					self.cPoolLock.notify()
 					logging.warn("Thread[%i] removed a database connection from the dead pool",threadId)
 				return
 			# ok, this really is an error!
@@ -3075,11 +3077,17 @@ class SQLEntityContainer(object):
 						else:
 							self.BreakConnection(cLock.dbc)
 							logging.warn("Waiting to break database connection acquired by Thread[%i]",threadId)
+							# the other thread must be able to find the
+							# connection in order to release it
+							self.cPoolLocked[threadId]=cLock
 							self.cPoolLock.wait(timeout)
+							self.cPoolLocked.pop(threadId,None)
+							self.cPoolUnlocked.pop(threadId,None)
 							noWait=True						
 					else:
 						# This connection will never be released properly
 						cLock.dbc.close()
+						break
 			while self.cPoolDead:
 				cLock=self.cPoolDead.pop()
 				noWait=False
@@ -3093,11 +3101,17 @@ class SQLEntityContainer(object):
 						else:
 							self.BreakConnection(cLock.dbc)
 							logging.warn("Waiting to break a database connection from the dead pool")
+							self.cPoolDead.append(cLock)
 							self.cPoolLock.wait(timeout)
+							if cLock not in self.cPoolDead:
+								# released, and closed, by the other thread
+								break
+							self.cPoolDead.remove(cLock)
 							noWait=True				
 					else:
 						# This connection will never be released properly
 						cLock.dbc.close()
+						break
 						
 	def __del__(self):
 		self.close()
-- 
2.43.0


From 6f16d44b1bb56298123f3fc44dc248beb7b620c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 21/36] fix: filter and order entities before cutting them down
 to $select

---
 pyslet/pyslet/odata2/csdl.py  |  4 ++--
 pyslet/pyslet/odata2/memds.py | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 6c7dfe9..443f5d7 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2965,8 +2965,8 @@ class ExpandedEntityCollection(NavigationCollection):
 			self.entityDict[e.Key()]=e
 			
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityList)))
 	
diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index ca6bcbb..246322d 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -422,13 +422,14 @@ class EntityCollection(odata.EntityCollection):
 			return result
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		# select last, the filter and order may use unselected properties
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
-			self.entityStore.GenerateEntities(self.select))))
+			self.entityStore.GenerateEntities())))
 		
 	def __getitem__(self,key):
-		e=self.entityStore.ReadEntity(key,self.select)
+		e=self.entityStore.ReadEntity(key)
 		if e is not None and self.CheckFilter(e):
 			e.Expand(self.expand,self.select)
 			return e
@@ -539,8 +540,8 @@ class NavigationCollection(odata.NavigationCollection):
 			yield self.collection[k]
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityGenerator())))
 
-- 
2.43.0


From e07e985cb20c2c1c94f71ea149c625fc88c05729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 22/36] fix: apply filter, expand and select when a navigation
 collection is indexed

---
 pyslet/pyslet/odata2/memds.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 246322d..0dad5cd 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -549,10 +549,8 @@ class NavigationCollection(odata.NavigationCollection):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			result=self.collection[key]
-			if self.filter is None:
-				if self.CheckFilter(result):
-					return result
-			else:
+			if self.CheckFilter(result):
+				result.Expand(self.expand,self.select)
 				return result
 		raise KeyError(key)
 		
-- 
2.43.0


From 0a863f54b50b23fd006dfac6e06cac536605f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 23/36] fix: odata2: close collections opened by the server on
 every way out; let SQL navigation collections be closed when construction
 fails

---
 pyslet/pyslet/odata2/server.py | 24 +++++++++++++++++++-----
 pyslet/pyslet/odata2/sqlds.py  | 17 ++++++++++++++---
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index ab51952..98b63d9 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -275,7 +275,11 @@ class Server(app.Server):
 			# This isn't even for us
 			return None
 		request=ODataURI(href,self.pathPrefix)
-		return self.GetResource(request)[0]
+		resource=self.GetResource(request)[0]
+		if isinstance(resource,edm.EntityCollection):
+			# we only identify resources here, nobody is going to read the collection
+			resource.close()
+		return resource
 	
 	def GetResource(self,odataURI):
 		resource=self.model
@@ -307,15 +311,16 @@ class Server(app.Server):
 					if keyPredicate:
 						# the keyPredicate can be passed directly as the key
 						try:
-							collection=resource
-							resource=collection[collection.entitySet.GetKey(keyPredicate)]
-							collection.close()
+							with resource as collection:
+								resource=collection[collection.entitySet.GetKey(keyPredicate)]
 						except KeyError,e:
 							raise MissingURISegment("%s%s"%(name,ODataURI.FormatKeyDict(keyPredicate)))					
 				elif resource is None:
 					raise MissingURISegment(name)
 			elif isinstance(resource,(edm.EntityCollection,edm.FunctionCollection)):
 				# bad request, because the collection must be the last thing in the path
+				if isinstance(resource,edm.EntityCollection):
+					resource.close()
 				raise BadURISegment("%s since the object's parent is a collection"%name)
 			elif isinstance(resource,edm.Entity):
 				if name not in resource:
@@ -353,7 +358,11 @@ class Server(app.Server):
 				# Any other type is just a property or simple-type
 				raise BadURISegment(name)
 		if isinstance(resource,edm.EntityCollection):
-			odataURI.ValidateSystemQueryOptions(1)	# includes 6 Note 2
+			try:
+				odataURI.ValidateSystemQueryOptions(1)	# includes 6 Note 2
+			except:
+				resource.close()
+				raise
 		elif isinstance(resource,edm.Entity):
 			if odataURI.pathOption==PathOption.value:
 				odataURI.ValidateSystemQueryOptions(17)	# media resource value
@@ -384,6 +393,7 @@ class Server(app.Server):
 		
 		*	*request* is an :py:class:`ODataURI` instance with a non-empty resourcePath."""
 		method=environ["REQUEST_METHOD"].upper()
+		resource=None
 		try:
 			resource,parentEntity=self.GetResource(request)
 			if request.pathOption==PathOption.metadata:
@@ -588,6 +598,10 @@ class Server(app.Server):
 			return self.ODataError(request,environ,start_response,"ConstraintError",str(e),403)
 		except NotImplementedError,e:
 			return self.ODataError(request,environ,start_response,"NotImplementedError",str(e),405)
+		finally:
+			if isinstance(resource,edm.EntityCollection):
+				# the response is complete
+				resource.close()
 			
 	def ExpandResource(self,resource,sysQueryOptions):
 		try:
diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index bdfdacf..7b0575d 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -1905,8 +1905,13 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
 		# absorb qualifyNames just in case
 		if not kwArgs.pop('qualifyNames',True):
 			logging.warn("SQLForeignKeyCollection ignored qualifyNames=False")
+		self.keyCollection=None			# close is called if we can't connect
 		super(SQLForeignKeyCollection,self).__init__(qualifyNames=True,**kwArgs)
-		self.keyCollection=self.fromEntity.entitySet.OpenCollection()
+		try:
+			self.keyCollection=self.fromEntity.entitySet.OpenCollection()
+		except:
+			self.close()
+			raise
 		navName=self.entitySet.linkEnds[self.fromEnd.otherEnd]
 		if not navName:
 			self.sourceName=self.container.mangledNames[(self.entitySet.name,self.fromEnd.name)]
@@ -2047,8 +2052,13 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
 	The implementation is actually simpler in this direction as no JOIN
 	clause is required."""	 	
 	def __init__(self,**kwArgs):
+		self.keyCollection=None			# close is called if we can't connect
 		super(SQLReverseKeyCollection,self).__init__(**kwArgs)
-		self.keyCollection=self.entitySet.OpenCollection()
+		try:
+			self.keyCollection=self.entitySet.OpenCollection()
+		except:
+			self.close()
+			raise
 
 	def WhereClause(self,entity,params,useFilter=True,useSkip=False):
 		"""Overridden to add the constraint to entities linked from *fromEntity* only."""
@@ -2139,7 +2149,8 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
 		self.keyCollection.ClearLinks(self.fromEnd.otherEnd,self.fromEntity,transaction)
 			
 	def close(self):
-		self.keyCollection.close()
+		if self.keyCollection is not None:
+			self.keyCollection.close()
 		super(SQLReverseKeyCollection,self).close()
 
 
-- 
2.43.0


From 72f293d29ed9335549f3fdbb00184edf018d2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 24/36] fix: odata2: apply $filter to $count, page $links,
 limit JSON pages, keep $top in the link to the next page

---
 pyslet/pyslet/odata2/core.py   | 3 +++
 pyslet/pyslet/odata2/server.py | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index abb277e..993aace 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2393,6 +2393,9 @@ class EntityCollection(edm.EntityCollection):
 				sysQueryOptions[SystemQueryOption.select]=FormatSelect(self.select)
 			if self.orderby is not None:
 				sysQueryOptions[SystemQueryOption.orderby]=CommonExpression.OrderByToString(self.orderby)
+			if self.top is not None:
+				# what remains of the entities asked for
+				sysQueryOptions[SystemQueryOption.top]=unicode(self.top-(self.topmax or 0))
 			sysQueryOptions[SystemQueryOption.skiptoken]=unicode(token)
 			return uri.URIFactory.URI(str(baseURL)+"?"+ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		else:
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 98b63d9..cc9cbd9 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -404,6 +404,7 @@ class Server(app.Server):
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
+					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
 					return self.ReturnCount(len(resource),request,environ,start_response,responseHeaders)
 				else:
 					raise BadURISegment("$count must be applied to an EntitySet or single EntityType instance")
@@ -641,7 +642,7 @@ class Server(app.Server):
 			data=str('{"d":%s}'%string.join(entities.GenerateLinkCollJSON(request.version),''))
 		else:
 			doc=Document(root=Links)
-			for e in entities.itervalues():
+			for e in entities.iterpage():
 				child=doc.root.ChildElement(URI)
 				child.SetValue(str(self.serviceRoot)+"%s(%s)"%(e.entitySet.name,repr(e.Key())))
 			data=str(doc)
@@ -684,12 +685,12 @@ class Server(app.Server):
 		responseType=self.ContentNegotiation(request,environ,self.FeedTypes)
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
+		entities.TopMax(self.topmax)
 		if responseType=="application/json":
 			data=str('{"d":%s}'%string.join(entities.GenerateEntitySetInJSON(request.version),''))
 		else:
 			# Here's a challenge, we want to pull data through the feed by yielding strings
 			# just load in to memory at the moment
-			entities.TopMax(self.topmax)
 			f=Feed(None,entities)
 			doc=Document(root=f)
 			f.collection=entities
-- 
2.43.0


From 0ef80e09d88a8c97653bba7cb0e2e0a812bb4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 25/36] fix: rfc2616: redirects resolve relative locations,
 keep credentials off other servers and survive a missing Location; one resend
 per challenge

---
 pyslet/pyslet/rfc2616.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index 434e2a0..bbfa5d1 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1674,7 +1674,7 @@ class HTTPRequest(HTTPMessage):
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
 					# else, we were finished anyway... the connection will discover this itself
-				elif self.response>=200:
+				elif self.status>=200:
 					# For 2xx result codes we let the connection finish spooling
 					# and disconnect from us when it is done
 					pass
@@ -1705,17 +1705,22 @@ class HTTPRequest(HTTPMessage):
 					# path rule only works for BasicCredentials
 					self.tryCredentials.AddSuccessPath(self.requestURI.absPath)
 			self.tryCredentials=None
-		if self.autoRedirect and self.status>=300 and self.status<=399 and (self.status!=302 or self.method.upper() in ("GET","HEAD")):
-			# If the 302 status code is received in response to a request other
+		if self.autoRedirect and self.status>=300 and self.status<=399 and (self.status not in (302,307) or self.method.upper() in ("GET","HEAD")):
+			# If the 302 or 307 status code is received in response to a request other
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
-			location=self.response.GetHeader("Location").strip()
+			location=self.response.GetHeader("Location")
+			if location is not None:
+				location=location.strip()
 			if location:
 				url=uri.URIFactory.URI(location)
-				if not url.host:
+				if not url.IsAbsolute():
 					# This is an error but a common one (thanks IIS!)
-					location=location.Resolve(self.requestURI)
-				self.Resend(location)
+					url=url.Resolve(self.requestURI)
+				if not self.requestURI.GetCanonicalRoot().Match(url.GetCanonicalRoot()):
+					# our credentials are not for this server
+					self.SetHeader('Authorization',None)
+				self.Resend(url)
 		elif self.status==401:
 			challenges=self.response.GetWWWAuthenticate()
 			for c in challenges:
@@ -1724,6 +1729,7 @@ class HTTPRequest(HTTPMessage):
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
 					self.Resend()	# to the same URL
+					break
 
 class HTTPResponse(HTTPMessage):
 	
@@ -1820,7 +1826,7 @@ class HTTPResponse(HTTPMessage):
 		if fieldValue is not None:
 			return Challenge.ListFromString(fieldValue)
 		else:
-			return None
+			return []
 
 	def SetWWWAuthenticate(self,challenges):
 		"""Sets the "WWW-Authenticate" header, replacing any exsiting
-- 
2.43.0


From e9ba9084cb870f48b806a7a326f039c41f756ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 26/36] fix: loops that never end, and the end of input taken
 for a character

---
 pyslet/pyslet/qtiv1/item.py         |  1 +
 pyslet/pyslet/qtiv2/core.py         |  2 ++
 pyslet/pyslet/rfc2234.py            |  2 ++
 pyslet/pyslet/rfc2616_core.py       |  4 ++--
 pyslet/pyslet/xml20081126/parser.py | 12 ++++++++++--
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 1842042..7e4a31f 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -961,6 +961,7 @@ class ResponseThing(Response):
 							rIdentifier="%s_%02i"%(baseIdentifier,i)
 							if item is None or not item.IsDeclared(rIdentifier):
 								break
+							i=i+1
 						interaction.responseIdentifier=rIdentifier
 						responseList.append(rIdentifier)
 				elif interactionList:	
diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index 3afafc8..ece1e65 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -161,6 +161,7 @@ def CalculateShapeBounds(shape,coords):
 				output[1]=y
 			elif y>output[3]:
 				output[3]=y
+			i=i+1
 		return output
 	elif shape==Shape.rect:
 		return [coords[0].GetValue(1024),coords[1].GetValue(768),
@@ -186,6 +187,7 @@ def OffsetShape(shape,coords,xOffset,yOffset):
 		while 2*i+1<len(coords):
 			coords[2*i].Add(-xOffset)
 			coords[2*i+1].Add(-yOffset)
+			i=i+1
 	elif shape==Shape.rect:
 		coords[0].Add(-xOffset)
 		coords[1].Add(-yOffset)
diff --git a/pyslet/pyslet/rfc2234.py b/pyslet/pyslet/rfc2234.py
index 17d1880..73e862a 100644
--- a/pyslet/pyslet/rfc2234.py
+++ b/pyslet/pyslet/rfc2234.py
@@ -453,6 +453,8 @@ class RFC2234CoreParser (RFC2234Parser):
 				except RFC2234Error:
 					self.PopParser(1)
 					break
+			else:
+				break
 		return lwsp
 
 	def ParseOCTET (self):
diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index 1123fdc..8109507 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -143,7 +143,7 @@ class HTTPParser(BasicParser):
 				return SP
 			else:
 				return lws
-		elif IsOCTET(self.theChar) and not IsCTL(self.theChar):
+		elif self.theChar is not None and IsOCTET(self.theChar) and not IsCTL(self.theChar):
 			result=self.theChar
 			self.NextChar()
 			return result
@@ -324,7 +324,7 @@ class HTTPParser(BasicParser):
 		found."""
 		savePos=self.pos
 		if self.Parse("\\"):
-			if IsCHAR(self.theChar):
+			if self.theChar is not None and IsCHAR(self.theChar):
 				qdPair="\\"+self.theChar
 				self.NextChar()
 				return qdPair				
diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..9931347 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -529,8 +529,10 @@ class XMLParser:
 			elif self.unicodeCompatibility:
 				if self.theChar==u"\u2028":
 					s.append('\n')
+					self.NextChar()
 				elif self.theChar==u"\u2029":
 					s.append(' ')
+					self.NextChar()
 				else:
 					break
 			else:
@@ -881,6 +883,7 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
+						continue
 				data.append(self.theChar)
 				self.NextChar()
 		else:
@@ -1551,6 +1554,9 @@ class XMLParser:
 			except XMLWellFormedError:
 				if not self.dontCheckWellFormedness:
 					raise
+				if self.theChar is None:
+					# nothing left to discard
+					break
 				# spurious character inside a start tag, in compatibility mode we
 				# just discard it and keep going
 				self.NextChar()
@@ -1637,7 +1643,8 @@ class XMLParser:
 						if self.sgmlOmittag and not self.element.IsMixed():
 							# CDATA can only be put in elements that can contain data!
 							self.BuffText('<![CDATA[')
-							self.UnhandledData('')
+							if not self.UnhandledData(''):
+								return False
 						else:
 							self.ParseCDSect(True)
 					else:
@@ -1663,7 +1670,8 @@ class XMLParser:
 					# we step in before resolving the reference, just in case
 					# this reference results in white space that is supposed
 					# to be the first data character after the omitted tag.
-					self.UnhandledData('')
+					if not self.UnhandledData(''):
+						return False
 				else:					
 					data=self.ParseReference()
 					if self.checkValidity and self.elementType and self.elementType.contentType==ElementType.Empty:
-- 
2.43.0


From 7b87f8fea6e5b0f28183276a33a40976b434144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 27/36] fix: character data containing ]]> hung the XML parser

---
 pyslet/pyslet/xml20081126/parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 9931347..119880e 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -1684,6 +1684,17 @@ class XMLParser:
 				else:
 					# leave the absence of an end tag for ParseElement to worry about
 					return True
+			elif self.ParseLiteral(']]>'):
+				# CharData does not include this sequence
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError("[14] CharData: ']]>' not allowed in content")
+				try:
+					self.HandleData(']]>')
+				except XMLValidityError:
+					if not self.sgmlOmittag:
+						raise
+					if not self.UnhandledData(']]>'):
+						return False
 			else:
 				pcdata=self.ParseCharData()
 				if pcdata and not self.UnhandledData(pcdata):
-- 
2.43.0


From 1250f66f5d10a8f69a4ce029a056b564f7c255b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 28/36] fix: the package directory itself is refused as a path
 for a file in a content package

---
 pyslet/pyslet/imscpv1p2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index d5248f1..64c2086 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -624,7 +624,8 @@ class ContentPackage:
 		else:
 			fPath=self.dPath.join(unicode(suggestedPath).lower())
 		fPath=PathInPath(fPath,self.dPath)
-		if fPath is None:
+		if not fPath:
+			# outside the package, or the package directory itself
 			raise CPFilePathError(suggestedPath)
 		fPath=fPath.normcase()
 		# Now we can try and make it unique
@@ -668,7 +669,7 @@ class ContentPackage:
 			if self.IgnoreFile(unicode(tail)):
 				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower()==u'imsmanifest.xml':
+			if not relPath or unicode(relPath).lower()==u'imsmanifest.xml':
 				raise CPFilePathError(str(fURL))
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
-- 
2.43.0


From 2c57f147a4acd36df23bb8ecd4b4b49d00d40f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 29/36] fix: the tables of Unicode characters are closed when
 writing them fails

---
 pyslet/pyslet/unicode5.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/unicode5.py b/pyslet/pyslet/unicode5.py
index 17761ef..575a3c9 100644
--- a/pyslet/pyslet/unicode5.py
+++ b/pyslet/pyslet/unicode5.py
@@ -533,8 +533,10 @@ def ParseCategoryTable():
 	# when we finally exit from this loop we should not be in a marked range
 	assert mark is None,"Unicode database ended during character range definition: %08X-?"%mark
 	f=file(os.path.join(os.path.dirname(__file__),CATEGORY_FILE),'w')
-	dump(UCDCategories,f)
-	f.close()
+	try:
+		dump(UCDCategories,f)
+	finally:
+		f.close()
 
 
 def LoadBlockTable():
@@ -580,8 +582,10 @@ def ParseBlockTable():
 			narrowWarning=True
 		UCDBlocks[blockName]=CharClass((unichr(codePoint0),unichr(codePoint1)))
 	f=file(os.path.join(os.path.dirname(__file__),BLOCK_FILE),'w')
-	dump(UCDBlocks,f)
-	f.close()
+	try:
+		dump(UCDBlocks,f)
+	finally:
+		f.close()
 
 
 class BasicParser(object):
-- 
2.43.0


From cb302b3fb190de3757798495f33a3da89668929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 30/36] fix: the escape function in use is handed on when the
 namespace declarations of an element are written

---
 pyslet/pyslet/xmlnames20091208.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 81367f9..2673866 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -304,7 +304,7 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			if prefix:
 				prefix=prefix+':'
 			attributes.append(u'%s%s=%s'%(prefix,aname,escapeFunction(attrs[a],True)))
-		self.WriteNSAttributes(attributes,escapeFunction=EscapeCharData,root=root)
+		self.WriteNSAttributes(attributes,escapeFunction=escapeFunction,root=root)
 	
 	def GenerateXML(self,escapeFunction=EscapeCharData,indent='',tab='\t',root=False):
 		if tab:
-- 
2.43.0


From 7ace296d13607e4cb75979a6ae3d143b81b960e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 31/36] fix: comments and processing instructions cut off by
 the end of the input, and -- followed by space in a comment, are not
 well-formed

---
 pyslet/pyslet/xml20081126/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 119880e..389e7fa 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -846,6 +846,8 @@ class XMLParser:
 				if nHyphens<2:
 					data.append('-'*nHyphens+self.theChar)
 					nHyphens=0
+				elif not self.dontCheckWellFormedness:
+					self.WellFormednessError("-- in Comment")
 				# space does not change the hyphen count
 				self.NextChar()
 			else:
@@ -856,6 +858,9 @@ class XMLParser:
 					nHyphens=0
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Unexpected end of file")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
@@ -886,6 +891,9 @@ class XMLParser:
 						continue
 				data.append(self.theChar)
 				self.NextChar()
+			else:
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
@@ -896,7 +904,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
-- 
2.43.0


From 16bba205c63889233227c28b7c735a3d096c9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:02 +0000
Subject: [PATCH 32/36] fix: QTI operators ignored records and raised errors of
 the language on NULL, untyped or over-large operands

multiple and ordered dropped record operands silently, member, delete and
contains failed with ValueError on records and untyped values, and power,
truncate and round let OverflowError escape instead of giving NULL.
---
 pyslet/pyslet/qtiv2/expressions.py | 37 ++++++++++++++----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 173a72a..1c47e8b 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -361,7 +361,7 @@ class Multiple(NOperator):
 		values=list(self.EvaluateChildren(state))
 		vInput=[]
 		for v in values:
-			if v.baseType is None:
+			if v.baseType is None and not v:
 				continue
 			if baseType is None:
 				baseType=v.baseType
@@ -402,7 +402,7 @@ class Ordered(NOperator):
 		values=list(self.EvaluateChildren(state))
 		vInput=[]
 		for v in values:
-			if v.baseType is None:
+			if v.baseType is None and not v:
 				continue
 			if baseType is None:
 				baseType=v.baseType
@@ -598,11 +598,7 @@ class Member(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Member requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
-		if singleValue.baseType is None or containerValue.baseType is None:
-			return variables.BooleanValue()
-		if singleValue.baseType!=containerValue.baseType:
-			raise core.ProcessingError("Mismatched base types for member operator")
-		if singleValue.baseType==variables.BaseType.duration:
+		if variables.CheckBaseTypes(singleValue.baseType,containerValue.baseType)==variables.BaseType.duration:
 			raise core.ProcessingError("Member operator must not be used on duration values")
 		if singleValue and containerValue:
 			if singleValue.Cardinality()!=variables.Cardinality.single:
@@ -638,13 +634,8 @@ class Delete(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Delete requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
-		if containerValue.baseType is None:
-			return variables.Container.NewValue(containerValue.Cardinality(),singleValue.baseType)
-		elif singleValue.baseType is None:
-			return variables.Container.NewValue(containerValue.Cardinality(),containerValue.baseType)
-		elif singleValue.baseType!=containerValue.baseType:
-			raise core.ProcessingError("Mismatched base types for delete operator")
-		if singleValue.baseType==variables.BaseType.duration:
+		baseType=variables.CheckBaseTypes(singleValue.baseType,containerValue.baseType)
+		if baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Delete operator must not be used on duration values")
 		if singleValue.Cardinality() not in (variables.Cardinality.single,None):
 			raise core.ProcessingError("Expected single value, found %s"%
@@ -652,7 +643,7 @@ class Delete(NOperator):
 		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):				
 			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
 				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
-		result=variables.Container.NewValue(containerValue.Cardinality(),containerValue.baseType)
+		result=variables.Container.NewValue(containerValue.Cardinality(),baseType)
 		if singleValue and containerValue:
 			# we treat multiple and ordered the same, less efficient as we enumerate all members
 			vResult=[]
@@ -688,8 +679,6 @@ class Contains(NOperator):
 		cardinality=variables.CheckCardinalities(v1.Cardinality(),v2.Cardinality())
 		if baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Contains operator must not be used on duration values")
-		if cardinality is None or baseType is None:
-			return variables.BooleanValue()
 		if v1 and v2:
 			if cardinality==variables.Cardinality.ordered:
 				# we use a naive implementation here as we don't expect large containers
@@ -1578,7 +1567,7 @@ class Power(NOperator):
 			v2v=float(v2.value)
 			try:
 				return variables.FloatValue(math.pow(v1v,v2v))
-			except ValueError:
+			except (ValueError,OverflowError):
 				# If the resulting value is outside the value set defined by
 				# float (not including positive and negative infinity) then the
 				# operator shall result in NULL
@@ -1663,7 +1652,11 @@ class Truncate(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(value.value))
+			try:
+				return variables.IntegerValue(int(value.value))
+			except (ValueError,OverflowError):
+				# the result is not one of the values of an integer
+				return variables.IntegerValue()
 		else:
 			return variables.IntegerValue()
 
@@ -1686,7 +1679,11 @@ class Round(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(math.floor(value.value+0.5)))
+			try:
+				return variables.IntegerValue(int(math.floor(value.value+0.5)))
+			except (ValueError,OverflowError):
+				# the result is not one of the values of an integer
+				return variables.IntegerValue()
 		else:
 			return variables.IntegerValue()
 
-- 
2.43.0


From 08097e769b497095d7e9f7d0b2e79bbc29ea3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 33/36] fix: OData comparison of NULL, division of a zero
 decimal by zero and negation of an entity

lt, gt, le and ge with a NULL string, date or GUID are now false, and 0 div 0
on decimals and the negation of an entity are evaluation errors.
---
 pyslet/pyslet/odata2/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 993aace..bef3a36 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -332,6 +332,8 @@ class UnaryExpression(CommonExpression):
 		return self.EvalMethod[self.operator](self,rValue)
 
 	def EvaluateNegate(self,rValue):
+		if not isinstance(rValue,edm.SimpleValue):
+			raise EvaluationError("Illegal operand for negate")
 		typeCode=rValue.typeCode
 		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.Int16):
 			rValue=rValue.SimpleCast(edm.SimpleType.Int32)
@@ -506,7 +508,8 @@ class BinaryExpression(CommonExpression):
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except ZeroDivisionError as e:
+		except (ZeroDivisionError,decimal.InvalidOperation) as e:
+			# decimal division of zero by zero is an invalid operation
 			raise EvaluationError(str(e))
 	
 	def EvaluateMod(self,lValue,rValue):
@@ -592,7 +595,11 @@ class BinaryExpression(CommonExpression):
 			return result
 		elif typeCode in (edm.SimpleType.String, edm.SimpleType.DateTime, edm.SimpleType.Guid):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-			result.SetFromValue(relation(lValue.value,rValue.value))
+			if lValue and rValue:
+				result.SetFromValue(relation(lValue.value,rValue.value))
+			else:
+				# if one operand is null, return False
+				result.SetFromValue(False)
 			return result
 		elif typeCode is None:	# e.g., null lt null
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-- 
2.43.0


From ee38ea3fccdb0bff106292c1d028c3dfbda68cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 34/36] fix: report HTTP responses cut short by the server as
 failed; no second last chunk after an empty body

---
 pyslet/pyslet/rfc2616.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bbfa5d1..496ef44 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -1607,10 +1607,11 @@ class HTTPRequest(HTTPMessage):
 			# We're just sending the body string
 			if self.transferChunked:
 				buffer=[]
-				# Send the first chunk size
-				buffer.append("%x\r\n"%len(self.reqBody))
-				buffer.append(self.reqBody)
-				buffer.append(CRLF)
+				if self.reqBody:
+					# Send the first chunk size
+					buffer.append("%x\r\n"%len(self.reqBody))
+					buffer.append(self.reqBody)
+					buffer.append(CRLF)
 				buffer.append("0\r\n\r\n")
 				self.transferPos=len(self.reqBody)
 				self.transferDone=True
@@ -1984,6 +1985,12 @@ class HTTPResponse(HTTPMessage):
 		"""Called when the server disconnects before we've completed reading the
 		response.  We pass this information on to the request.  Note that if we
 		are reading forever 'err' may or may not be set when the server finally
-		hangs up and stops sending."""
+		hangs up and stops sending.
+		
+		A response that has been cut short is reported as failed."""
+		if self.mode!=self.RESP_DONE and (self.mode!=self.RESP_DATA or self.transferLength):
+			self.status=None
+			if err is None:
+				err=HTTPException("Connection closed before the response was complete")
 		self.reason=str(err)
 		self.request.ResponseFinished(err)
-- 
2.43.0


From 8f792df4d314887b9c34e7e2c7eeebf093263ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 35/36] fix: inserting into a filtered collection replaced an
 entity that the filter hides

---
 pyslet/pyslet/odata2/memds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 0dad5cd..0a76d0b 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -405,7 +405,7 @@ class EntityCollection(odata.EntityCollection):
 				entity.SetKey(key)
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
-			if key in self:
+			if key in self.entityStore.data:
 				raise edm.ConstraintError("%s already exists"%odata.ODataURI.FormatEntityKey(entity))
 			# Check constraints
 			entity.CheckNavigationConstraints(fromEnd)
-- 
2.43.0


From 7f5d71288b750e9945731a81e2d8fa976052c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 36/36] fix: brackets of right operands, arguments of indexof
 and positions in SQL translated from expressions

---
 pyslet/pyslet/odata2/sqlds.py | 40 +++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/pyslet/pyslet/odata2/sqlds.py b/pyslet/pyslet/odata2/sqlds.py
index 7b0575d..1f5b56b 100755
--- a/pyslet/pyslet/odata2/sqlds.py
+++ b/pyslet/pyslet/odata2/sqlds.py
@@ -41,7 +41,8 @@ SQLOperatorPrecedence={
 	'+':5,
 	'-':5,
 	'*':6,
-	'/':6
+	'/':6,
+	'()':7
 	}
 """Look-up table for SQL operator precedence calculations.
 
@@ -52,6 +53,25 @@ example::
 	SQLOperatorPrecedence['+']<SQLOperatorPrecedence['*']
 	SQLOperatorPrecedence['<']==SQLOperatorPrecedence['>']"""
 
+SQLOperandContext={
+	'=':('+','+'),
+	'<>':('+','+'),
+	'<':('+','+'),
+	'>':('+','+'),
+	'<=':('+','+'),
+	'>=':('+','+'),
+	'-':('-','*'),
+	'*':('*','()'),
+	'/':('/','()')
+	}
+"""Look-up table for the contexts of the operands of an operator.
+
+An operand with the same precedence as the operator itself must be
+bracketed, unless it is the first operand of an operator that groups from
+the left: a-(b-c) is not a-b-c and a comparison of the result of a
+comparison needs brackets.  Operators that are not in the table are
+associative."""
+
 
 class UnparameterizedLiteral(core.LiteralExpression):
 	"""Class used as a flag that this literal is safe and does not need
@@ -880,11 +900,12 @@ class SQLCollectionBase(core.EntityCollection):
 		to include an *operator* argument, a string representing the
 		(binary) SQL operator corresponding to the expression object.""" 
 		query=[]
-		query.append(self.SQLExpression(expression.operands[0],params,operator))
+		left,right=SQLOperandContext.get(operator,(operator,operator))
+		query.append(self.SQLExpression(expression.operands[0],params,left))
 		query.append(u' ')
 		query.append(operator)
 		query.append(u' ')
-		query.append(self.SQLExpression(expression.operands[1],params,operator))
+		query.append(self.SQLExpression(expression.operands[1],params,right))
 		return self.SQLBracket(string.join(query,''),context,operator)
 	
 	def SQLExpressionMul(self,expression,params,context):
@@ -960,13 +981,13 @@ class SQLCollectionBase(core.EntityCollection):
 		return self.SQLBracket(string.join(query,''),context,'LIKE')
 		
 	def SQLExpressionIndexof(self,expression,params,context):
-		"""Converts the indexof method: maps to POSITION( op[0] IN op[1] )"""
+		"""Converts the indexof method: maps to POSITION( op[1] IN op[0] ) - 1"""
 		query=[u"POSITION("]
-		query.append(self.SQLExpression(expression.operands[0],params,','))
-		query.append(u" IN ")
 		query.append(self.SQLExpression(expression.operands[1],params,','))
-		query.append(u")")
-		return string.join(query,'')	
+		query.append(u" IN ")
+		query.append(self.SQLExpression(expression.operands[0],params,','))
+		query.append(u") - 1")		# SQL counts from 1
+		return self.SQLBracket(string.join(query,''),context,'-')
 		
 	def SQLExpressionReplace(self,expression,params,context):
 		"""Converts the replace method: no default implementation"""
@@ -1005,7 +1026,8 @@ class SQLCollectionBase(core.EntityCollection):
 		query=[u"SUBSTRING("]
 		query.append(self.SQLExpression(expression.operands[0],params,','))
 		query.append(u" FROM ")
-		query.append(self.SQLExpression(expression.operands[1],params,','))
+		query.append(self.SQLExpression(expression.operands[1],params,'+'))
+		query.append(u" + 1")		# SQL counts from 1
 		if len(expression.operands)>2:
 			query.append(u" FOR ")
 			query.append(self.SQLExpression(expression.operands[2],params,','))
-- 
2.43.0

