From 6827f33dfb8b924fecdd7625170efce617fc5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/23] fix: keep floating images apart from flow blocks when
 restoring a layout

A restored floating image was put into the flow blocks, where it is never
written to docx, so it got lost after restore/deserialize and hence with
multi-processing. Parsing a page twice duplicated its floating images since
the list was never reset.
---
 pdf2docx/page/Blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..6b7294b 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -116,6 +117,8 @@ class Blocks(Collection):
             elif block_type == BlockType.FLOAT_IMAGE.value:
                 block = ImageBlock(raw_block)
                 block.set_float_image_block()
+                self.floating_image_blocks.append(block)
+                continue # not a part of flow layout
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From fe1af8b61642b11a91c003f6d1848aa2530499d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 02/23] fix: restore a stream table as stream table

TableBlock sets lattice type by default, so each stream table turned into a
lattice one when restored: extract_tables() returned more tables than from the
parsed page.
---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 6b7294b..f927f09 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -123,6 +123,7 @@ class Blocks(Collection):
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
                 block = TableBlock(raw_block)
+                if block_type == BlockType.STREAM_TABLE.value: block.set_stream_table_block()
             
             else:
                 block = None            
-- 
2.43.0


From 4273ddaf39daea33b0be676418cd5e73c6d0a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 03/23] fix: drop cached shape groups when restoring shapes

strokes/fillings/hyperlinks are cached, so a page parsed again used the shapes
of its previous parsing process.
---
 pdf2docx/shape/Shapes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index fd5aefa..14f917d 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -28,6 +28,9 @@ class Shapes(Collection):
     def restore(self, raws:list):
         '''Clean current instances and restore them from source dicts.'''
         self.reset()
+        # properties cached for previous instances
+        for name in ('strokes', 'fillings', 'hyperlinks'): self.__dict__.pop(name, None)
+
         # Distinguish specified type by key like `start`, `end` and `uri`.
         for raw in raws:
             if 'start' in raw:
-- 
2.43.0


From a8bd085de3acafcd0cb40f7d9ec39cc977e5857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 04/23] fix: a page failed in parsing again is not finalized
 any more

If parsing a page again fails half way, the page was still marked as finalized
with a partial layout, so it was created in docx rather than ignored.
---
 pdf2docx/page/Page.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 22a7629..cf785a5 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -142,6 +142,8 @@ class Page(RawPage):
 
     def parse(self, settings:dict=None):
         '''Parse page layout.'''
+        self._finalized = False # not parsed until all steps succeed
+
         # update parameters
         self.settings = self.init_settings(settings)
 
-- 
2.43.0


From 2cbe502187ec433ab8373033b392f0c459aa2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 05/23] fix: rotation matrix of a page applies to source data
 of that page only

The matrix was kept globally after parsing a rotated page, so a layout restored
afterwards was rotated again. For the same reason, pages parsed in different
threads disturbed each other.
---
 pdf2docx/common/Element.py | 22 ++++++++++++++++++----
 pdf2docx/page/Page.py      |  7 ++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 306192f..56a164f 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -17,6 +17,7 @@ CS. If final coordinates are provided, should update it after creating an empty
 '''
 
 import copy
+import threading
 import fitz
 from .share import IText
 from . import constants
@@ -28,23 +29,36 @@ class Element(IText):
     # all coordinates are related to un-rotated page in PyMuPDF
     # e.g. Matrix(0.0, 1.0, -1.0, 0.0, 842.0, 0.0)
     ROTATION_MATRIX = fitz.Matrix(0.0) # rotation angle = 0 degree by default
+    _context = threading.local() # the matrix in use, valid in current thread only
 
 
     @classmethod
     def set_rotation_matrix(cls, rotation_matrix):
-        """Set global rotation matrix.
+        """Set rotation matrix for instances created from now on in current thread.
 
         Args:
             Rotation_matrix (fitz.Matrix): target matrix
         """        
         if rotation_matrix and isinstance(rotation_matrix, fitz.Matrix):
-            cls.ROTATION_MATRIX = rotation_matrix
+            Element._context.rotation_matrix = rotation_matrix
+
+
+    @classmethod
+    def reset_rotation_matrix(cls):
+        '''Back to default matrix, i.e. without rotation.'''
+        Element._context.rotation_matrix = Element.ROTATION_MATRIX
+
+
+    @classmethod
+    def rotation_matrix(cls):
+        '''The rotation matrix in use.'''
+        return getattr(Element._context, 'rotation_matrix', Element.ROTATION_MATRIX)
 
 
     @classmethod
     def pure_rotation_matrix(cls):
         '''Pure rotation matrix used for calculating text direction after rotation.'''
-        a,b,c,d,e,f = cls.ROTATION_MATRIX
+        a,b,c,d,e,f = cls.rotation_matrix()
         return fitz.Matrix(a,b,c,d,0,0)
 
 
@@ -55,7 +69,7 @@ class Element(IText):
 
         # NOTE: Any coordinates provided in raw is in original page CS (without considering page rotation).
         if 'bbox' in (raw or {}):
-            rect = fitz.Rect(raw['bbox']) * Element.ROTATION_MATRIX
+            rect = fitz.Rect(raw['bbox']) * Element.rotation_matrix()
             self.update_bbox(rect)
 
 
diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index cf785a5..3efc4ac 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -30,6 +30,7 @@ from docx.shared import Pt
 from docx.enum.section import WD_SECTION
 from ..common.share import debug_plot
 from ..common import constants
+from ..common.Element import Element
 from .RawPage import RawPage
 from .Layout import Layout
 
@@ -213,7 +214,11 @@ class Page(RawPage):
     @debug_plot('Source Text Blocks')
     def _load_source(self):
         '''Initialize layout extracted with ``PyMuPDF``.'''
-        self.restore(self.raw_dict)
+        try:
+            self.restore(self.raw_dict)
+        finally:
+            # the rotation matrix is for source data of this page only
+            Element.reset_rotation_matrix()
         self._finalized = False  # just restored from raw dict, not parsed yet
         return self.layout.blocks
     
-- 
2.43.0


From f6d58850324c8ce51b51f265f6577470ee49665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 06/23] fix: set page contents back after hiding text for
 clipping images

The content streams were changed permanently: parsing the page again, or any
page sharing the stream, got hidden text, e.g. wrong text color.
---
 pdf2docx/page/RawPage.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..8312809 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -62,8 +62,15 @@ class RawPage:
         self.width, self.height = w, h
 
         # pre-processing for layout blocks and shapes based on parent page
-        self._preprocess_images(raw_layout)
-        self._preprocess_shapes(raw_layout)
+        # NOTE: page text may be hidden for clipping image, so set original contents back finally
+        doc = self.fitz_page.parent
+        contents = {xref: doc.xrefStream(xref) for xref in self.fitz_page.get_contents()}
+        try:
+            self._preprocess_images(raw_layout)
+            self._preprocess_shapes(raw_layout)
+        finally:
+            for xref, stream in contents.items():
+                if doc.xrefStream(xref) != stream: doc.updateStream(xref, stream)
         
         # Element is a base class processing coordinates, so set rotation matrix globally
         Element.set_rotation_matrix(self.fitz_page.rotationMatrix)
-- 
2.43.0


From 7242b40a1c6bc78fe29c7c9dd130674d2e432240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 07/23] fix: default docx filename for pdf with any extension

For a pdf without extension .pdf in lower case, e.g. X.PDF, the default docx
filename was same with the pdf, so the source pdf was removed and overwritten.
And .pdf in folder name was changed by mistake.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..014eb5f 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -102,7 +102,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else os.path.splitext(self.filename_pdf)[0] + '.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From efb2b6b8b4b2a38fd9931fa4e2a8c0b3aac04171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 08/23] fix: parse nothing for an empty page selection

An empty page range, e.g. start>=end, or an idle worker process with
multi-processing, led to all pages parsed.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 014eb5f..14e49b1 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = page_indexes if page_indexes is not None else range(len(self._pages))
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
-- 
2.43.0


From 7b9afb118d52562e09bfa1ed83eec7cb91931d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 09/23] fix: convert and extract selected pages only

Pages parsed by a previous convert() or extract_tables() of the same Converter
were included in addition to the selected pages.
---
 pdf2docx/converter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 14e49b1..400386f 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -28,7 +28,7 @@ class Converter:
         self._fitz_doc = fitz.Document(pdf_file)
 
         # initialize pages
-        self._pages = [Page(fitz_page) for fitz_page in self._fitz_doc]
+        self._init_pages()
 
 
     def __getitem__(self, index):
@@ -61,6 +61,11 @@ class Converter:
 
     def close(self): self._fitz_doc.close()
 
+
+    def _init_pages(self):
+        '''Initialize pages, i.e. nothing parsed yet.'''
+        self._pages = [Page(fitz_page) for fitz_page in self._fitz_doc]
+
     
     def parse(self, page_indexes=None, kwargs:dict=None):
         """Parse pages in specified ``page_indexes``.
@@ -230,7 +235,8 @@ class Converter:
         # pages to convert
         page_indexes = self._page_indexes(start, end, pages, len(self))
         
-        # convert page by page
+        # convert page by page, ignoring pages parsed by previous process
+        self._init_pages()
         t0 = perf_counter()        
         if kwargs.get('multi_processing', False):
             self._parse_and_create_pages_with_multi_processing(docx_filename, page_indexes, kwargs)
@@ -255,7 +261,8 @@ class Converter:
         kwargs = kwargs if kwargs else {}
         page_indexes = self._page_indexes(start, end, pages, len(self))
 
-        # process page by page
+        # process page by page, ignoring pages parsed by previous process
+        self._init_pages()
         self.parse(page_indexes, kwargs)
 
         # get parsed tables
-- 
2.43.0


From 584c983b3d48023ad6565967bb7524984b6e09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 10/23] fix: replace existing docx only when the new one is
 completed

The existing docx was removed before creating pages and the new one was written
in place, so any error, e.g. disk full, left a broken docx or nothing at all.
---
 pdf2docx/common/share.py | 23 +++++++++++++++++++++++
 pdf2docx/converter.py    |  4 ++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 37f17a4..6198df9 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -1,7 +1,10 @@
 # -*- coding: utf-8 -*-
 
 from enum import Enum
+import os
 import random
+import uuid
+from contextlib import contextmanager
 from collections import deque
 from collections.abc import Iterable
 from fitz.utils import getColorList, getColorInfoList
@@ -102,6 +105,26 @@ def is_number(str_number):
         return True
 
 
+@contextmanager
+def replace_when_done(filename:str):
+    '''Context manager to write a file completely or not at all.
+
+    The content is written to the given temporary file in same folder, which replaces the target
+    file once everything is done. So, the target file is never missing or half-written, even
+    though it's interrupted by errors.
+
+    Args:
+        filename (str): Target filename.
+    '''
+    tmp = os.path.join(os.path.dirname(filename), f'~{uuid.uuid4().hex}.tmp')
+    try:
+        yield tmp
+        os.replace(tmp, filename)
+    except BaseException:
+        if os.path.exists(tmp): os.remove(tmp)
+        raise
+
+
 def flatten(items, klass):
     '''Yield items from any nested iterable.'''
     for item in items:
diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 400386f..e6fd841 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -7,6 +7,7 @@ from multiprocessing import Pool, cpu_count
 import fitz
 from docx import Document
 from .page.Page import Page
+from .common.share import replace_when_done
 
 
 class Converter:
@@ -108,7 +109,6 @@ class Converter:
 
         # docx file to convert to        
         filename = docx_filename if docx_filename else os.path.splitext(self.filename_pdf)[0] + '.docx'
-        if os.path.exists(filename): os.remove(filename)
 
         # create page by page
         docx_file = Document() 
@@ -123,7 +123,7 @@ class Converter:
                 print(f'Ignore page due to error: {e}', flush=True)
 
         # save docx
-        docx_file.save(filename)
+        with replace_when_done(filename) as tmp: docx_file.save(tmp)
 
 
     def store(self):
-- 
2.43.0


From 4295225ac575c3afb14b19ffbf888c648eaf1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 11/23] fix: write layout json file completely or not at all

The existing layout file was emptied before pages were serialized, so any error
led to a broken layout file.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index e6fd841..94f1396 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -144,7 +144,7 @@ class Converter:
 
     def serialize(self, filename:str):
         '''Write parsed pages to specified JSON file.'''
-        with open(filename, 'w', encoding='utf-8') as f:
+        with replace_when_done(filename) as tmp, open(tmp, 'w', encoding='utf-8') as f:
             f.write(json.dumps(self.store(), indent=4))
     
 
-- 
2.43.0


From 265d0390f6fe9418a9242ca74d56894a0aa16dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 12/23] fix: multi-processing converts selected pages, or
 raises an error

- parse the selected pages only, rather than the entire range from the first to
  the last one; and nothing to do for an empty selection
- store temporary files in a private folder instead of working directory, where
  simultaneous conversions overwrote each other's files
- raise an exception if a process is killed, instead of waiting for ever; and
  never ignore missing results
- all processes are terminated in the end
---
 pdf2docx/converter.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 94f1396..9779916 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -3,7 +3,9 @@
 import os
 import json
 from time import perf_counter
-from multiprocessing import Pool, cpu_count
+from multiprocessing import cpu_count
+from concurrent.futures import ProcessPoolExecutor
+from tempfile import TemporaryDirectory
 import fitz
 from docx import Document
 from .page.Page import Page
@@ -295,20 +297,20 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
-
-        # start parsing processes
-        pool = Pool()
-        pool.map(self._parse_pages_per_cpu, vectors, 1)
-        
-        # restore parsed page data
-        for i in range(cpu):
-            filename = f'{prefix}-{i}.json'
-            if not os.path.exists(filename): continue            
-            self.deserialize(filename)
-            os.remove(filename)
+        with TemporaryDirectory() as path: # never mix up with files of other conversions
+            vectors = [(i, cpu, page_indexes, self.filename_pdf, kwargs, 
+                        os.path.join(path, f'{prefix}-{i}.json')) for i in range(cpu)]
+
+            # start parsing processes
+            # NOTE: in contrast to `multiprocessing.Pool`, an exception is raised here in case a 
+            # process terminates abruptly, rather than waiting for its result forever.
+            with ProcessPoolExecutor(max_workers=cpu) as executor:
+                list(executor.map(self._parse_pages_per_cpu, vectors))
+            
+            # restore parsed page data
+            for *_, filename in vectors:
+                self.deserialize(filename)
         
         # create docx file
         self.make_docx(docx_filename)
@@ -322,19 +324,18 @@ class Converter:
             vector (list): A list containing required parameters.
                 * 0  : segment number for current process                
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : whole pages to process since sometimes need only parts of pdf pages                
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From 58332a8b4d350a2af002e3e0e3e935fa56a49c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 13/23] fix: close pdf file in case of errors

---
 pdf2docx/converter.py |  8 +++++---
 pdf2docx/main.py      | 18 ++++++++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 9779916..a8abc09 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -345,9 +345,11 @@ class Converter:
         page_indexes = [all_indexes[i] for i in range(seg_from, seg_to)]
 
         # parse pages and serialize data for further processing
-        cv.parse(page_indexes, kwargs)
-        cv.serialize(json_filename)
-        cv.close()
+        try:
+            cv.parse(page_indexes, kwargs)
+            cv.serialize(json_filename)
+        finally:
+            cv.close()
 
 
     @staticmethod
diff --git a/pdf2docx/main.py b/pdf2docx/main.py
index 0cc997d..683199a 100644
--- a/pdf2docx/main.py
+++ b/pdf2docx/main.py
@@ -29,8 +29,10 @@ class PDF2DOCX:
             if pages: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
-        cv.convert(docx_file, start, end, pages, kwargs)
-        cv.close()
+        try:
+            cv.convert(docx_file, start, end, pages, kwargs)
+        finally:
+            cv.close()
     
 
     @staticmethod
@@ -50,8 +52,10 @@ class PDF2DOCX:
             page_index = max(page_index-1, 0)
 
         cv = Converter(pdf_file)
-        cv.debug_page(page_index, docx_file, debug_pdf, layout_file, kwargs)
-        cv.close()
+        try:
+            cv.debug_page(page_index, docx_file, debug_pdf, layout_file, kwargs)
+        finally:
+            cv.close()
 
 
     @staticmethod
@@ -71,8 +75,10 @@ class PDF2DOCX:
             if pages: pages = [i-1 for i in pages]
 
         cv = Converter(pdf_file)
-        tables = cv.extract_tables(start, end, pages, kwargs)
-        cv.close()
+        try:
+            tables = cv.extract_tables(start, end, pages, kwargs)
+        finally:
+            cv.close()
 
         return tables
 
-- 
2.43.0


From 8faa75fdb128afccb36e61c963c72fc7b4c6572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 14/23] fix: print messages in ascii

Printing text that can't be encoded by the console, e.g. Chinese characters in
an ASCII terminal, raised UnicodeEncodeError, which made the page ignored or the
conversion terminated.
---
 pdf2docx/converter.py  | 4 ++--
 pdf2docx/text/Lines.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index a8abc09..0d04f9e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -87,7 +87,7 @@ class Converter:
             try:
                 self._pages[idx].parse(kwargs)
             except Exception as e:
-                print(f'\nIgnore page due to error: {e}', flush=True)
+                print(f'\nIgnore page due to error: {ascii(str(e))}', flush=True)
 
         return self
 
@@ -122,7 +122,7 @@ class Converter:
             try:
                 page.make_docx(docx_file)
             except Exception as e:
-                print(f'Ignore page due to error: {e}', flush=True)
+                print(f'Ignore page due to error: {ascii(str(e))}', flush=True)
 
         # save docx
         with replace_when_done(filename) as tmp: docx_file.save(tmp)
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..d43168d 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -81,7 +81,7 @@ class Lines(Collection):
            
             # ignore this line if overlap with previous line
             if line.get_main_bbox(pre_line, threshold=line_overlap_threshold):
-                print(f'Ignore Line "{line.text}" due to overlap')
+                print(f'Ignore Line {ascii(line.text)} due to overlap')
                 continue
 
             # add line directly if not aligned horizontally with previous line
-- 
2.43.0


From 642d6d12243d7a230c0c4b368afebbc3dd4ad71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 15/23] fix: new section after a page failed in creating its
 first table

If the first page was ignored due to error in creating a table, the next page
was added to the same section, i.e. mixed up with the failed page.
---
 pdf2docx/page/Page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 3efc4ac..128bf9d 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -192,7 +192,7 @@ class Page(RawPage):
         # new page section
         # a default section is created when initialize the document,
         # so we do not have to add section for the first time.
-        if not doc.paragraphs:
+        if not (doc.paragraphs or doc.tables):
             section = doc.sections[0]
         else:
             section = doc.add_section(WD_SECTION.NEW_PAGE)
-- 
2.43.0


From c4af18ab6c9864742ba3cb035da395d5e998c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 16/23] fix: debug_page doesn't change user's configuration

Debug options were written to the dict given by user, so it couldn't be used for
further conversions, e.g. all of them were plotted to the same debug file.
---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 0d04f9e..e5797a1 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -166,7 +166,7 @@ class Converter:
             debug_pdf (str): New pdf file storing layout information. Default to add prefix ``debug_``.
             layout_file (str): New json file storing parsed layout data. Default to ``layout.json``.
         '''
-        kwargs = kwargs if kwargs else {}
+        kwargs = dict(kwargs) if kwargs else {}
 
         # include debug information
         # fitz object in debug mode: plot page layout
-- 
2.43.0


From 32efe6210d3625c8ae1fd5bb610f7c6e5c9a74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 17/23] fix: plot filling path in debug mode

---
 pdf2docx/shape/Path.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 7b9bd4c..3d38fbe 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -352,15 +352,17 @@ class Path:
                 canvas.drawBezier(item[1], item[2], item[3], item[4])
 
         # now apply the common properties to finish the path
+        # NOTE: a property not applicable to this path, e.g. line cap of a filling path, may be None
+        get = lambda key, default: default if self.raw.get(key) is None else self.raw[key]
         canvas.finish(
             fill=self.raw.get("fill", None),  # fill color
             color=self.raw.get("color", None),  # line color
             dashes=self.raw.get("dashes", None),  # line dashing
-            even_odd=self.raw.get("even_odd", False),  # control color of overlaps
-            closePath=self.raw.get("closePath", True),  # whether to connect last and first point
-            lineJoin=self.raw.get("lineJoin", 0),  # how line joins should look like
-            lineCap=max(self.raw["lineCap"]) if "lineCap" in self.raw else 0,  # how line ends should look like
-            width=self.raw.get("width", 1),  # line width
-            stroke_opacity=self.raw.get("opacity", 1),  # same value for both
-            fill_opacity=self.raw.get("opacity", 1)  # opacity parameters
+            even_odd=get("even_odd", False),  # control color of overlaps
+            closePath=get("closePath", True),  # whether to connect last and first point
+            lineJoin=get("lineJoin", 0),  # how line joins should look like
+            lineCap=max(get("lineCap", (0,))),  # how line ends should look like
+            width=get("width", 1),  # line width
+            stroke_opacity=get("opacity", 1),  # same value for both
+            fill_opacity=get("opacity", 1)  # opacity parameters
             )
\ No newline at end of file
-- 
2.43.0


From b776c69bbd26b5c2edfc73ec1fce2abdb983b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 18/23] fix: don't split text span with a shape out of it

The intersection of disjoint rects is an invalid rect in recent PyMuPDF, which is True
in a boolean context. So the span got a wrong bbox, and the line containing it was lost
when restored from a stored layout.
---
 pdf2docx/text/TextSpan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..c9bd691 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -214,7 +214,8 @@ class TextSpan(Element):
         intsec = rect.bbox & self.bbox
 
         # no, then add this span as it is
-        if not intsec: return [self]
+        # NOTE: the intersection of disjoint rects is either an empty or an invalid rect
+        if not intsec or intsec.x0>intsec.x1 or intsec.y0>intsec.y1: return [self]
 
         # yes, then split spans:
         # - add new style to the intersection part
-- 
2.43.0


From 2f628d0ebfc0565043a5b773d506953e0d622e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 19/23] fix: don't split text span with a shape just touching
 it

If no char lies in the intersection, the span got the bbox beside the intersection, which
may be empty. Then, the line containing it was lost when restored from a stored layout.
---
 pdf2docx/text/TextSpan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index c9bd691..b1c0dec 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -237,10 +237,14 @@ class TextSpan(Element):
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
 
+        # nothing to format if the shape touches the span only, so keep this span as it is;
+        # otherwise, its bbox might be reduced to an empty one
+        if not index_chars: return [self]
+
         # then we get target chars in a sequence
-        pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
+        pos = index_chars[0][0]
         length = len(index_chars)
-        pos_end = max(pos+length, 0) # max() is used in case: pos=-1, length=0
+        pos_end = pos+length
 
         # split span with the intersection: span-intersection-span
         # 
-- 
2.43.0


From 70a8cae5184a571f5d88dafb08d5767d0c8346d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 20/23] fix: identify source block of text lines with an unique
 number

id() of a released block may be used by another block again, so lines
from different blocks were occasionally taken as lines of a same block
---
 pdf2docx/text/Lines.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index d43168d..0faf8b5 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -3,6 +3,7 @@
 '''A group of Line objects.
 '''
 
+from itertools import count
 from docx.shared import Pt
 from .Line import Line
 from ..image.ImageSpan import ImageSpan
@@ -15,6 +16,14 @@ from ..common import constants
 class Lines(Collection):
     '''Collection of text lines.'''
 
+    # ID of source parent: note id() of a released block might be used by another one again
+    _ids = count(1)
+
+    def __init__(self, instances:list=None, parent=None):
+        super().__init__(instances, parent)
+        self._id = next(Lines._ids)
+
+
     @property
     def unique_parent(self):
         '''Whether all contained lines have same parant.'''
@@ -34,7 +43,7 @@ class Lines(Collection):
 
         # update original parent id
         if not self._parent is None:
-            line.pid = id(self._parent)
+            line.pid = self._id
 
 
     def restore(self, raws:list):
-- 
2.43.0


From 0271e5bffebd96c7c2dccaf5401a282ca360f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 21/23] fix: keep boundary box of strokes when restored from
 layout

A stroke converted from a filling area starts at the edge of that area, so its boundary box isn't the one
derived from the centerline. It was changed whenever a stored layout was restored and stored again.
---
 pdf2docx/shape/Shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/shape/Shape.py b/pdf2docx/shape/Shape.py
index 792884e..0a2c249 100644
--- a/pdf2docx/shape/Shape.py
+++ b/pdf2docx/shape/Shape.py
@@ -138,8 +138,8 @@ class Stroke(Shape):
         super().__init__(raw) # type, color
         self.width = raw.get('width', 0.0)
 
-        # update bbox
-        super().update_bbox(self._to_rect())
+        # update bbox, except the one stored: not always derived from centerline, e.g. when created from Fill
+        if 'bbox' not in raw: super().update_bbox(self._to_rect())
 
 
     @property
-- 
2.43.0


From 85585dae33fa011a1cdbc030fb5a8e6c215f4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 22/23] fix: go on when a message cannot be written to the
 console

---
 pdf2docx/common/docx.py  |  4 ++--
 pdf2docx/common/share.py |  9 +++++++++
 pdf2docx/converter.py    | 14 +++++++-------
 pdf2docx/text/Lines.py   |  4 ++--
 4 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..8648460 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -13,7 +13,7 @@ from docx.image.exceptions import UnrecognizedImageError
 from docx.table import _Cell
 from docx.opc.constants import RELATIONSHIP_TYPE
 
-from .share import rgb_value
+from .share import (rgb_value, echo)
 from . import constants
 
 
@@ -210,7 +210,7 @@ def add_image(p, image_path_or_stream, width):
     try:
         docx_span.add_picture(image_path_or_stream, width=Pt(width))
     except UnrecognizedImageError:
-        print('Unrecognized Image.')
+        echo('Unrecognized Image.')
         return
     
     # exactly line spacing will destroy image display, so set single line spacing instead
diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 6198df9..3ffa4b3 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -125,6 +125,15 @@ def replace_when_done(filename:str):
         raise
 
 
+def echo(message:str='', end:str='\n'):
+    '''Show a message in console. It's for information only, i.e. a broken or closed console, e.g. 
+    a pipe nobody reads from any more, must not stop the conversion.'''
+    try:
+        print(message, end=end, flush=True)
+    except (OSError, ValueError):
+        pass
+
+
 def flatten(items, klass):
     '''Yield items from any nested iterable.'''
     for item in items:
diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index e5797a1..1c2e929 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -9,7 +9,7 @@ from tempfile import TemporaryDirectory
 import fitz
 from docx import Document
 from .page.Page import Page
-from .common.share import replace_when_done
+from .common.share import (echo, replace_when_done)
 
 
 class Converter:
@@ -83,11 +83,11 @@ class Converter:
         indexes = page_indexes if page_indexes is not None else range(len(self._pages))
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
-            print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
+            echo(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='')
             try:
                 self._pages[idx].parse(kwargs)
             except Exception as e:
-                print(f'\nIgnore page due to error: {ascii(str(e))}', flush=True)
+                echo(f'\nIgnore page due to error: {ascii(str(e))}')
 
         return self
 
@@ -115,14 +115,14 @@ class Converter:
         # create page by page
         docx_file = Document() 
         num_pages = len(parsed_pages)
-        print()
+        echo()
         for i, page in enumerate(parsed_pages, start=1):
             if not page.finalized: continue # ignore unparsed pages
-            print(f'\rCreating Page {page.id+1}: {i}/{num_pages}...', end='')
+            echo(f'\rCreating Page {page.id+1}: {i}/{num_pages}...', end='')
             try:
                 page.make_docx(docx_file)
             except Exception as e:
-                print(f'Ignore page due to error: {ascii(str(e))}', flush=True)
+                echo(f'Ignore page due to error: {ascii(str(e))}')
 
         # save docx
         with replace_when_done(filename) as tmp: docx_file.save(tmp)
@@ -244,7 +244,7 @@ class Converter:
             self._parse_and_create_pages_with_multi_processing(docx_filename, page_indexes, kwargs)
         else:
             self._parse_and_create_pages(docx_filename, page_indexes, kwargs)       
-        print(f'\n{"-"*50}\nTerminated in {perf_counter()-t0}s.')        
+        echo(f'\n{"-"*50}\nTerminated in {perf_counter()-t0}s.')        
 
 
     def extract_tables(self, start:int=0, end:int=None, pages:list=None, kwargs:dict=None):
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 0faf8b5..4b33eea 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -9,7 +9,7 @@ from .Line import Line
 from ..image.ImageSpan import ImageSpan
 from ..common.Collection import Collection
 from ..common.docx import add_stop
-from ..common.share import TextAlignment
+from ..common.share import (TextAlignment, echo)
 from ..common import constants
 
 
@@ -90,7 +90,7 @@ class Lines(Collection):
            
             # ignore this line if overlap with previous line
             if line.get_main_bbox(pre_line, threshold=line_overlap_threshold):
-                print(f'Ignore Line {ascii(line.text)} due to overlap')
+                echo(f'Ignore Line {ascii(line.text)} due to overlap')
                 continue
 
             # add line directly if not aligned horizontally with previous line
-- 
2.43.0


From dff426f4c8ec28ffe15c4f582079476241c0addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 23/23] fix: write through links and keep permissions of a
 replaced file

---
 pdf2docx/common/share.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/common/share.py b/pdf2docx/common/share.py
index 3ffa4b3..9cba117 100644
--- a/pdf2docx/common/share.py
+++ b/pdf2docx/common/share.py
@@ -1,10 +1,12 @@
 # -*- coding: utf-8 -*-
 
 from enum import Enum
+import errno
 import os
 import random
+import shutil
 import uuid
-from contextlib import contextmanager
+from contextlib import contextmanager, suppress
 from collections import deque
 from collections.abc import Iterable
 from fitz.utils import getColorList, getColorInfoList
@@ -116,9 +118,22 @@ def replace_when_done(filename:str):
     Args:
         filename (str): Target filename.
     '''
+    # nothing to replace, e.g. a stream or device
+    if hasattr(filename, 'write') or os.path.exists(filename) and not os.path.isfile(filename):
+        yield filename
+        return
+
+    # write to the file a link points to, but never to a protected one
+    filename = os.path.realpath(filename)
+    replaced = os.path.exists(filename)
+    if replaced and not os.access(filename, os.W_OK):
+        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), filename)
+
     tmp = os.path.join(os.path.dirname(filename), f'~{uuid.uuid4().hex}.tmp')
     try:
         yield tmp
+        if replaced: # keep permissions
+            with suppress(OSError): shutil.copymode(filename, tmp)
         os.replace(tmp, filename)
     except BaseException:
         if os.path.exists(tmp): os.remove(tmp)
-- 
2.43.0

