From 7f0b1ab4970e66670526827788c3ae8f163ed196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 01/61] fix: an empty page selection must not convert the whole
 document

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index beb5d25..7af2e5e 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -72,7 +72,7 @@ class Converter:
         Returns:
             Converter: self
         """        
-        indexes = page_indexes if page_indexes else range(len(self._pages))
+        indexes = range(len(self._pages)) if page_indexes is None else page_indexes
         num_pages = len(indexes)
         for i, idx in enumerate(indexes, start=1):
             print(f'\rParsing Page {idx+1}: {i}/{num_pages}...', end='', flush=True)
-- 
2.43.0


From 5defc32a9c2010ce9e639f824053c19b38a4170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 02/61] fix: end=0 selects no page instead of all pages

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 7af2e5e..2c08cf9 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -348,7 +348,7 @@ class Converter:
         if pages: 
             indexes = [int(x) for x in pages if 0<=x<pdf_len]
         else:
-            end = end or pdf_len
+            end = pdf_len if end is None else end
             s = slice(int(start), int(end))
             indexes = range(pdf_len)[s]
         
-- 
2.43.0


From a126d7382c7dbe5bf3fe3b30d4a1e2f3fddfd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 03/61] fix: slicing a converter with a negative stop follows
 sequence rules

---
 pdf2docx/converter.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 2c08cf9..f6f4c7d 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -32,14 +32,8 @@ class Converter:
 
 
     def __getitem__(self, index):
-        num = self._fitz_doc.pageCount
         if isinstance(index, slice):
-            if index.stop is None or index.stop > num:
-                stop = num
-            else:
-                stop = index.stop
-            pages = [self._pages[i] for i in range(stop)]
-            return pages[index]
+            return self._pages[index]
         else:
             try:
                 page = self._pages[index]
-- 
2.43.0


From 15be8390f61459da7794c6ab1094e5ae75740284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 04/61] fix: multi-processing parses only the requested pages

---
 pdf2docx/converter.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index f6f4c7d..913e2a6 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -282,9 +282,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        start, end = min(page_indexes), max(page_indexes)
         prefix = 'pages' # json file writing parsed pages per process
-        vectors = [(i, cpu, start, end, self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
+        vectors = [(i, cpu, list(page_indexes), self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
         pool = Pool()
@@ -309,19 +308,18 @@ class Converter:
             vector (list): A list containing required parameters.
                 * 0  : segment number for current process                
                 * 1  : count of CPUs
-                * 2,3: whole pages range to process since sometimes need only parts of pdf pages                
-                * 4  : pdf filename
-                * 5  : configuration parameters
-                * 6  : json filename storing parsed results
+                * 2  : indexes of all pages to process since sometimes need only parts of pdf pages                
+                * 3  : pdf filename
+                * 4  : configuration parameters
+                * 5  : json filename storing parsed results
         '''
         # recreate the arguments
-        idx, cpu, s, e, pdf_filename, kwargs, json_filename = vector
+        idx, cpu, all_indexes, pdf_filename, kwargs, json_filename = vector
 
         # worker
         cv = Converter(pdf_filename)
 
         # all pages to process
-        all_indexes = range(s, e+1)
         num_pages = len(all_indexes)
 
         # pages per segment
-- 
2.43.0


From dfe0bb65f3bfba369a130181f98651fa2500b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 05/61] fix: default docx name replaces the extension only

---
 pdf2docx/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 913e2a6..8c30282 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -96,7 +96,7 @@ class Converter:
             raise Exception('No parsed pages. Please parse page first.')
 
         # docx file to convert to        
-        filename = docx_filename if docx_filename else self.filename_pdf.replace('.pdf', '.docx')
+        filename = docx_filename if docx_filename else os.path.splitext(self.filename_pdf)[0] + '.docx'
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From f6401eded7d24cfd2271e5058ce1baa998cc32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 06/61] fix: a conversion does not write pages of a previous
 conversion

---
 pdf2docx/converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 8c30282..2bf260a 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -224,6 +224,9 @@ class Converter:
         # pages to convert
         page_indexes = self._page_indexes(start, end, pages, len(self))
         
+        # ignore pages parsed by a previous conversion
+        self._pages = [Page(fitz_page) for fitz_page in self._fitz_doc]
+
         # convert page by page
         t0 = perf_counter()        
         if kwargs.get('multi_processing', False):
@@ -249,6 +252,9 @@ class Converter:
         kwargs = kwargs if kwargs else {}
         page_indexes = self._page_indexes(start, end, pages, len(self))
 
+        # ignore pages parsed by a previous conversion
+        self._pages = [Page(fitz_page) for fitz_page in self._fitz_doc]
+
         # process page by page
         self.parse(page_indexes, kwargs)
 
-- 
2.43.0


From 9c1ba8d10c9b891d00be0aa93e8671e9ea0782dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 07/61] fix: a page that fails to parse again is not finalized

---
 pdf2docx/page/Page.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index 22a7629..b3f61bf 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -142,6 +142,9 @@ class Page(RawPage):
 
     def parse(self, settings:dict=None):
         '''Parse page layout.'''
+        # not parsed yet, e.g. when parsing again
+        self._finalized = False
+
         # update parameters
         self.settings = self.init_settings(settings)
 
-- 
2.43.0


From a5c1a0fcc2729c0c4aff7811abe32d4b0e603e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 08/61] fix: no table cells if all vertical strokes are in one
 column

A stroked rectangle narrower than min_border_clearance led to rows without
any cell and an IndexError, i.e. the whole page was lost.
---
 pdf2docx/table/TableStructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 80db6bc..a6a04b8 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -407,6 +407,9 @@ class TableStructure:
         y_rows = sorted(self.h_strokes)
         x_cols = sorted(self.v_strokes)
 
+        # no cell at all if all vertical strokes are in same column
+        if len(x_cols)<2: return []
+
         # each lattice is a cell
         cells = []
         for i in range(len(y_rows)-1):
-- 
2.43.0


From ea56b877d7e3c149d14c4e0b050e5b78762f2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:06 +0000
Subject: [PATCH 09/61] fix: assign each character/image in table region to
 just one cell

A block almost (95%) in a cell was added to this cell, while the part in the
neighbour cell was added once more; a character exactly half in two cells was
added to both, and one less than half in any cell (e.g. partly out of the
table) was lost.  Take the center of the character or image instead.
---
 pdf2docx/common/Element.py   |  7 +++++++
 pdf2docx/image/ImageSpan.py  |  2 +-
 pdf2docx/table/Cell.py       | 21 +++++++++++++--------
 pdf2docx/table/TableBlock.py |  9 ++++++++-
 pdf2docx/text/Line.py        |  4 ++++
 pdf2docx/text/TextSpan.py    |  2 +-
 6 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index 306192f..ae2cdbd 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -160,6 +160,13 @@ class Element(IText):
             return self.bbox.height+constants.MINOR_DIST >= e.bbox.height
    
 
+    def center_in(self, rect):
+        """Whether the center of this instance locates in ``rect``, excluding the right and bottom edge, 
+        so that it locates in just one of adjacent areas."""
+        x, y = (self.bbox.x0+self.bbox.x1)/2.0, (self.bbox.y0+self.bbox.y1)/2.0
+        return rect.x0<=x<rect.x1 and rect.y0<=y<rect.y1
+
+
     def get_main_bbox(self, e, threshold:float=0.95):
         """If the intersection with ``e`` exceeds the threshold, return the union of these two elements; else return None.
 
diff --git a/pdf2docx/image/ImageSpan.py b/pdf2docx/image/ImageSpan.py
index 9c8e456..a66bfc9 100644
--- a/pdf2docx/image/ImageSpan.py
+++ b/pdf2docx/image/ImageSpan.py
@@ -23,7 +23,7 @@ class ImageSpan(Image):
             ImageSpan: A copy of itself if intersects with target; otherwise empty ImageSpan. 
         '''
         # add image span if most of of the image is contained in bbox
-        if self.get_main_bbox(rect, constants.FACTOR_MAJOR):
+        if self.center_in(rect):
             return self.copy()
         
         # otherwise, ignore image
diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 16dea4d..27d8fca 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -93,38 +93,43 @@ class Cell(Element):
         self.layout.blocks.plot(page)
 
 
-    def assign_blocks(self, blocks:list):
+    def assign_blocks(self, blocks:list, region):
         '''Add blocks to this cell. 
         
         Args:
             blocks (list): a list of text/table block to add.
+            region (fitz.Rect): The region of this cell, i.e. bbox for inner cell.
         
         .. note::
             If a text block is partly contained in a cell, it must deep into line -> span -> char.
         '''
-        for block in blocks: self._assign_block(block)
+        for block in blocks: self._assign_block(block, region)
     
 
-    def _assign_block(self, block):
+    def _assign_block(self, block, region):
         '''Add block to this cell. 
         
         Args:
             block (TextBlock, TableBlock): Text/table block to add. 
+            region (fitz.Rect): The region of this cell.
         '''
         # add block directly if fully contained in cell
-        if self.contains(block, constants.FACTOR_ALMOST):
+        if region.contains(block.bbox):
             self.layout.blocks.append(block)
             return
         
         # add nothing if no intersection
-        if not self.bbox & block.bbox: return
+        if not region.intersects(block.bbox): return
 
-        # otherwise, further check lines in text block
-        if not block.is_text_image_block():  return
+        # table block can't be split, so it belongs to the cell containing its center
+        if not block.is_text_image_block():
+            if block.center_in(region): self.layout.blocks.append(block)
+            return
         
+        # otherwise, further check lines in text block
         # NOTE: add each line as a single text block to avoid overlap between table block and combined lines
         split_block = TextBlock()
-        lines = [line.intersects(self.bbox) for line in block.lines]
+        lines = [line.intersects(region) for line in block.lines]
         split_block.add(lines)
         self.layout.blocks.append(split_block)
 
diff --git a/pdf2docx/table/TableBlock.py b/pdf2docx/table/TableBlock.py
index 51f2476..1efe7d7 100644
--- a/pdf2docx/table/TableBlock.py
+++ b/pdf2docx/table/TableBlock.py
@@ -31,6 +31,7 @@ Data Structure::
 '''
 
 
+import fitz
 from .Row import Row
 from .Rows import Rows
 from ..common.Block import Block
@@ -107,10 +108,16 @@ class TableBlock(Block):
         Args:
             blocks (list): A list of text/table blocks.
         '''
+        x0, y0, x1, y1 = self.bbox
+        inf = float('inf')
         for row in self._rows:
             for cell in row:
                 if not cell: continue
-                cell.assign_blocks(blocks)
+                # extend outer cells since contents may be slightly out of the table
+                u0, v0, u1, v1 = cell.bbox
+                region = fitz.Rect(u0 if u0>x0 else -inf, v0 if v0>y0 else -inf,
+                                    u1 if u1<x1 else inf, v1 if v1<y1 else inf)
+                cell.assign_blocks(blocks, region)
 
 
     def assign_shapes(self, shapes:list):
diff --git a/pdf2docx/text/Line.py b/pdf2docx/text/Line.py
index 825a2f9..33faff3 100644
--- a/pdf2docx/text/Line.py
+++ b/pdf2docx/text/Line.py
@@ -172,6 +172,10 @@ class Line(Element):
             contained_span = span.intersects(rect)
             line.add(contained_span)
 
+        # all contents are contained, though not the entire bbox
+        count = lambda spans: sum(1 if isinstance(span, ImageSpan) else len(span.chars) for span in spans)
+        if count(line.spans)==count(self.spans): return self.copy()
+
         return line
 
 
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index ed821a3..92e5fd6 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -359,7 +359,7 @@ class TextSpan(Element):
         span.update_bbox((0.0,0.0,0.0,0.0))
 
         for char in self.chars:
-            if char.get_main_bbox(rect, constants.FACTOR_A_HALF): # contains at least a half part
+            if char.center_in(rect): # contains at least a half part
                 span.chars.append(char)
                 span.union_bbox(char)
 
-- 
2.43.0


From b079141cf9ba4bb9b8e1ddebed632f6efa2c9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 10/61] fix: assign shapes to the cells they intersect with

The intersection of two rects is a rect in any case, so each shape in a table
was assigned to every cell, e.g. a nested table repeated in all cells.
---
 pdf2docx/table/Cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 27d8fca..68d0eee 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -142,7 +142,7 @@ class Cell(Element):
         '''
         # add shape if contained in cell
         for shape in shapes:
-            if self.bbox & shape.bbox: self.layout.shapes.append(shape)
+            if self.bbox.intersects(shape.bbox): self.layout.shapes.append(shape)
         self.layout.shapes.detect_initial_categories()
 
 
-- 
2.43.0


From b138607b9888c901fbe87648a7b8ea3325334958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 11/61] fix: keep the order of lines above and below a table

Lines of one text block above and below a table were combined to one
paragraph again, i.e. all of them came in front of the table.
---
 pdf2docx/page/Blocks.py | 47 ++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 45d7685..12077c1 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -471,18 +471,24 @@ class Blocks(Collection):
         '''
         blocks = [] # type: list[TextBlock]
         lines = Lines()
+
+        # regroup lines
+        def split_lines():
+            for group_lines in lines.split_back():
+                text_block = TextBlock()
+                text_block.lines.reset(group_lines)
+                blocks.append(text_block)
+            lines.reset()
+
         # collect lines for further step, or table block directly
-        for block in self._instances:
+        # NOTE: don't combine lines above a table with those below it
+        for block in self.sort_in_reading_order():
             if block.is_text_image_block() and block.is_flow_layout(*args):
                 lines.extend(block.lines)
             else:
+                split_lines()
                 blocks.append(block)
-        
-        # regroup lines
-        for group_lines in lines.split_back():
-            text_block = TextBlock()
-            text_block.lines.reset(group_lines)
-            blocks.append(text_block)
+        split_lines()
        
         self.reset(blocks).sort_in_reading_order()
 
@@ -603,8 +609,29 @@ class Blocks(Collection):
             if block.is_table_block():
                 blocks.append(block)
             else:
-                text_block = TextBlock()
-                text_block.add(lines)
-                blocks.append(text_block)
+                for group_lines in Blocks._split_by_tables(lines, tables):
+                    text_block = TextBlock()
+                    text_block.add(group_lines)
+                    blocks.append(text_block)
+
+
+    @staticmethod
+    def _split_by_tables(lines:Lines, tables:list):
+        '''Split lines of a block into groups above and below the tables in between, otherwise the order of lines 
+        and tables is broken. Tables beside the lines are ignored.'''
+        idx = 1 if lines.is_horizontal_text else 0
+        center = lambda line: (line.bbox[idx]+line.bbox[idx+2])/2.0
+        groups = [list(lines)]
+        for table in tables:
+            res = []
+            for group in groups:
+                above = [line for line in group if center(line)<table.bbox[idx]]
+                below = [line for line in group if center(line)>table.bbox[idx+2]]
+                if above and below and len(above)+len(below)==len(group):
+                    res.extend([above, below])
+                else:
+                    res.append(group)
+            groups = res
+        return groups
 
 
-- 
2.43.0


From 71da71122c6409964ae4881e8bc971f4284c66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 12/61] fix: sort vertical text lines in a row from bottom to
 top

---
 pdf2docx/text/Lines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 7c6df23..335c692 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -190,11 +190,12 @@ class Lines(Collection):
             else:
                 lines_in_rows[-1].append(line)
         
-        # sort lines in each row: consider text direction
-        idx = 0 if self.is_horizontal_text else 3
+        # sort lines in each row: consider text direction, i.e. from left to right, 
+        # or from bottom to top for vertical text
+        is_horizontal = self.is_horizontal_text
         self._instances = []
         for row in lines_in_rows:
-            row.sort(key=lambda line: line.bbox[idx])
+            row.sort(key=lambda line: line.bbox.x0 if is_horizontal else -line.bbox.y1)
             self._instances.extend(row)
 
 
-- 
2.43.0


From 360ecf4441c3aef64da1f695f27c9f88c6c5e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 13/61] fix: apply text style only to lines intersecting with
 the style shape

---
 pdf2docx/common/Element.py | 22 ++++++++++++++++++++++
 pdf2docx/text/Lines.py     |  4 +---
 pdf2docx/text/TextSpan.py  |  2 +-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/common/Element.py b/pdf2docx/common/Element.py
index ae2cdbd..387e95a 100644
--- a/pdf2docx/common/Element.py
+++ b/pdf2docx/common/Element.py
@@ -167,6 +167,28 @@ class Element(IText):
         return rect.x0<=x<rect.x1 and rect.y0<=y<rect.y1
 
 
+    def intersects_with(self, e, dt:float=0.0):
+        """Whether this instance intersects with ``e``.
+
+        Args:
+            e (Element): Target element, which may be a line without area.
+            dt (float, optional): Expanding margin of this instance. Defaults to 0.0.
+
+        Returns:
+            bool: False if they're separate, or just touching each other.
+        
+        .. note::
+            ``fitz.Rect`` of two separate rects' intersection is not always an empty one, so don't
+            rely on its truth value.
+        """
+        for i in (0, 1):
+            a0, a1 = self.bbox[i]-dt, self.bbox[i+2]+dt
+            b0, b1 = e.bbox[i], e.bbox[i+2]
+            d = min(a1, b1) - max(a0, b0)
+            if d<0 or (d==0 and a1>a0 and b1>b0): return False
+        return True
+
+
     def get_main_bbox(self, e, threshold:float=0.95):
         """If the intersection with ``e`` exceeds the threshold, return the union of these two elements; else return None.
 
diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 335c692..9dd3f6b 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -271,9 +271,7 @@ class Lines(Collection):
 
         for line in self._instances:
             # any intersection in this line?
-            intsec = rect.bbox & line.get_expand_bbox(constants.MAJOR_DIST)
-            
-            if not intsec: 
+            if not line.intersects_with(rect, constants.MAJOR_DIST): 
                 if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
                 continue
 
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 92e5fd6..a68d0a1 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -214,7 +214,7 @@ class TextSpan(Element):
         intsec = rect.bbox & self.bbox
 
         # no, then add this span as it is
-        if not intsec: return [self]
+        if not self.intersects_with(rect): return [self]
 
         # yes, then split spans:
         # - add new style to the intersection part
-- 
2.43.0


From e42995288f4308ce8cecfeea7855da596f297031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 14/61] fix: hyperlink is not applied to adjacent lines its hot
 area slightly overlaps

---
 pdf2docx/text/TextSpan.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index a68d0a1..fc2784c 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -216,6 +216,12 @@ class TextSpan(Element):
         # no, then add this span as it is
         if not self.intersects_with(rect): return [self]
 
+        # NOTE: the hot area of hyperlink may overlap adjacent lines slightly
+        if rect.type==RectType.HYPERLINK:
+            idx = 1 if horizontal else 0
+            h_min = min(rect.bbox[idx+2]-rect.bbox[idx], self.bbox[idx+2]-self.bbox[idx])
+            if intsec[idx+2]-intsec[idx]<0.5*h_min: return [self]
+
         # yes, then split spans:
         # - add new style to the intersection part
         # - keep the original style for the rest
-- 
2.43.0


From 300f202e7c323c555e2267b914d1137d00bffa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 15/61] fix: keep the bbox of a span none of its characters is
 covered by a style shape

---
 pdf2docx/text/TextSpan.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index fc2784c..4340460 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -242,10 +242,13 @@ class TextSpan(Element):
         f = lambda items: items[1].contained_in_rect(rect, horizontal)
         index_chars = list(filter(f, enumerate(self.chars)))
 
+        # keep this span as it is, especially its bbox, if nothing found
+        if not index_chars: return [self]
+
         # then we get target chars in a sequence
-        pos = index_chars[0][0] if index_chars else -1 # start index -1 if nothing found
+        pos = index_chars[0][0] # start index
         length = len(index_chars)
-        pos_end = max(pos+length, 0) # max() is used in case: pos=-1, length=0
+        pos_end = pos+length
 
         # split span with the intersection: span-intersection-span
         # 
-- 
2.43.0


From 9d08d63c14a75534f7debe20cd882429ed90987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 16/61] fix: strip blanks at both ends of a line

---
 pdf2docx/text/Spans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/Spans.py b/pdf2docx/text/Spans.py
index 54600a3..cbc2dac 100644
--- a/pdf2docx/text/Spans.py
+++ b/pdf2docx/text/Spans.py
@@ -41,11 +41,11 @@ class Spans(Collection):
         
         # left strip the first span
         left_span = self._instances[0]
-        if isinstance(left_span, TextSpan): stripped = stripped or left_span.lstrip() 
+        if isinstance(left_span, TextSpan): stripped = left_span.lstrip()
 
         # right strip the last span
         right_span = self._instances[-1]
-        if isinstance(right_span, TextSpan): stripped = stripped or right_span.rstrip()
+        if isinstance(right_span, TextSpan): stripped = right_span.rstrip() or stripped
 
         # update bbox
         if stripped: self._parent.update_bbox(self.bbox)
-- 
2.43.0


From c11da58d74802c14f7b7df371c0a9c5dde0656e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 17/61] fix: write superscript to the font of the run

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 4340460..80c33df 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -407,7 +407,7 @@ class TextSpan(Element):
         # bit 2: serifed (2^2)
         # bit 3: monospaced (2^3)
         # bit 4: bold (2^4)
-        docx_run.superscript = bool(self.flags & 2**0)
+        docx_run.font.superscript = bool(self.flags & 2**0)
         docx_run.italic = bool(self.flags & 2**1)
         docx_run.bold = bool(self.flags & 2**4)
 
-- 
2.43.0


From 4207f4668f5a21177801b04deb569443df652c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 18/61] fix: float images by the documented overlap

---
 pdf2docx/page/Blocks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 12077c1..c908b19 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -178,10 +178,12 @@ class Blocks(Collection):
             float_image_ignorable_gap (float): Regarded as float image if the intersection exceeds this value.
         """
         # group lines by connectivity
+        # NOTE: each line shrinks at both sides, so a half of the gap is enough
         lines = Lines()
         for block in self._instances:
             lines.extend(block.lines)
-        groups = lines.group_by_connectivity(dx=-float_image_ignorable_gap, dy=-float_image_ignorable_gap)
+        gap = float_image_ignorable_gap / 2.0
+        groups = lines.group_by_connectivity(dx=-gap, dy=-gap)
         
         # identify floating objects
         for group in filter(lambda group: len(group)>1, groups):
-- 
2.43.0


From c5799578efdf9d38cbd3331dacdbe9380a6a8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 19/61] fix: match image locations independent of rounding

---
 pdf2docx/page/RawPage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 8fb5a86..b951a86 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -99,9 +99,9 @@ class RawPage:
             image_blocks_group[hash(block['image'])].append(block)
         
         def same_images(img, img_list):
-            bbox = list(map(round, img['bbox']))
+            # NOTE: don't compare rounded values, e.g. 10.4999 and 10.5001 are rounded to different integers
             for _img in img_list:
-                if list(map(round, _img['bbox']))==bbox: return True
+                if all(abs(x-_x)<1.0 for x, _x in zip(img['bbox'], _img['bbox'])): return True
             return False
 
         # An example to show complicated things here:
-- 
2.43.0


From 8aa9ca3af0f2e66d2be13c03fae41f0c606e26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 20/61] fix: keep all images placed at a same location

---
 pdf2docx/page/RawPage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index b951a86..64385ce 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -111,12 +111,14 @@ class RawPage:
         # (2) c: an image in page may not exist in raw dict -> so, add it
         # (3) d: an image in raw dict may not exist in page -> so, delete it
         for image in recovered_images:
-            for k, image_blocks in image_blocks_group.items():
-                if not same_images(image, image_blocks): continue
-                for image_block in image_blocks:
+            groups = [image_blocks for image_blocks in image_blocks_group.values() if same_images(image, image_blocks)]
+
+            # NOTE: in case different images at a same location, each of them should be added back
+            groups.sort(key=lambda image_blocks: image_blocks[0]['type']==1)
+            if groups:
+                for image_block in groups[0]:
                     image_block['type'] = 1 # add it back
                     image_block['image'] = image['image']
-                break
 
             # an image outside the page is not counted in page.getText(), so let's add it here
             else:
-- 
2.43.0


From ed2440aae6d4855cbf405ff5b3b94eea6f9c0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 21/61] fix: never replace the source file with the docx

---
 pdf2docx/converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index 2bf260a..d618e19 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -97,6 +97,8 @@ class Converter:
 
         # docx file to convert to        
         filename = docx_filename if docx_filename else os.path.splitext(self.filename_pdf)[0] + '.docx'
+        if os.path.abspath(filename)==os.path.abspath(self.filename_pdf):
+            raise Exception('The docx file must not replace the source file.')
         if os.path.exists(filename): os.remove(filename)
 
         # create page by page
-- 
2.43.0


From 3d2938164c2f385181c0314ab5453f3d76dcf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 22/61] fix: multi-processing does not overwrite files in the
 working directory

---
 pdf2docx/converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/converter.py b/pdf2docx/converter.py
index d618e19..27ba698 100644
--- a/pdf2docx/converter.py
+++ b/pdf2docx/converter.py
@@ -3,6 +3,7 @@
 import os
 import json
 from time import perf_counter
+from tempfile import TemporaryDirectory
 from multiprocessing import Pool, cpu_count
 import fitz
 from docx import Document
@@ -290,7 +291,8 @@ class Converter:
         '''
         # make vectors of arguments for the processes
         cpu = min(kwargs['cpu_count'], cpu_count()) if 'cpu_count' in kwargs else cpu_count()
-        prefix = 'pages' # json file writing parsed pages per process
+        temp_dir = TemporaryDirectory()
+        prefix = os.path.join(temp_dir.name, 'pages') # json file writing parsed pages per process
         vectors = [(i, cpu, list(page_indexes), self.filename_pdf, kwargs, f'{prefix}-{i}.json') for i in range(cpu)]
 
         # start parsing processes
@@ -303,6 +305,7 @@ class Converter:
             if not os.path.exists(filename): continue            
             self.deserialize(filename)
             os.remove(filename)
+        temp_dir.cleanup()
         
         # create docx file
         self.make_docx(docx_filename)
-- 
2.43.0


From 806732e36b5fe574d740660085e90df09e1c2e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 23/61] fix: restore stream tables as stream tables

---
 pdf2docx/page/Blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index c908b19..78976d3 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -120,6 +120,7 @@ class Blocks(Collection):
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
                 block = TableBlock(raw_block)
+                if block_type == BlockType.STREAM_TABLE.value: block.set_stream_table_block()
             
             else:
                 block = None            
-- 
2.43.0


From 3435743f3cc60a3b761eb130656a21c468940599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 24/61] fix: restore floating images as floating images

---
 pdf2docx/page/Blocks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 78976d3..7df0d0a 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -101,6 +101,7 @@ class Blocks(Collection):
             Blocks: self
         '''
         self.reset()  # clean current instances
+        self.floating_image_blocks = []
         for raw_block in raws:
             block_type = raw_block.get('type', -1) # type: int
             
@@ -114,8 +115,10 @@ class Blocks(Collection):
             
             # floating image block
             elif block_type == BlockType.FLOAT_IMAGE.value:
-                block = ImageBlock(raw_block)
-                block.set_float_image_block()
+                float_image = ImageBlock(raw_block)
+                float_image.set_float_image_block()
+                self.floating_image_blocks.append(float_image)
+                block = None
 
             # table block
             elif block_type in (BlockType.LATTICE_TABLE.value, BlockType.STREAM_TABLE.value):
-- 
2.43.0


From ee8a706a5e20831495c6142366fb23fa22e1844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 25/61] fix: rotate coordinates read from pdf page only

---
 pdf2docx/page/Page.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf2docx/page/Page.py b/pdf2docx/page/Page.py
index b3f61bf..540b768 100644
--- a/pdf2docx/page/Page.py
+++ b/pdf2docx/page/Page.py
@@ -26,9 +26,11 @@ some new features are also included, e.g.
 
 '''
 
+import fitz
 from docx.shared import Pt
 from docx.enum.section import WD_SECTION
 from ..common.share import debug_plot
+from ..common.Element import Element
 from ..common import constants
 from .RawPage import RawPage
 from .Layout import Layout
@@ -215,6 +217,10 @@ class Page(RawPage):
     def _load_source(self):
         '''Initialize layout extracted with ``PyMuPDF``.'''
         self.restore(self.raw_dict)
+
+        # coordinates are in real page CS since now, e.g. when restoring parsed results
+        Element.set_rotation_matrix(fitz.Matrix(0.0))
+
         self._finalized = False  # just restored from raw dict, not parsed yet
         return self.layout.blocks
     
-- 
2.43.0


From bad74ff56a770be1b4b2629cb0b9f221e7bc9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 26/61] fix: left indent of a paragraph with first line
 indentation

---
 pdf2docx/text/TextBlock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index e4dcfc4..ab2cce0 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -294,8 +294,8 @@ class TextBlock(Block):
             pf.alignment = WD_ALIGN_PARAGRAPH.JUSTIFY
 
         # - paragraph indentation
-        # NOTE: first-line-indent should be excluded
-        pf.left_indent  = Pt(self.left_space-self.first_line_space)
+        # NOTE: the left space refers to the first line in case hanging, otherwise to the other lines
+        pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
         pf.right_indent  = Pt(self.right_space)
 
         # - first line indentation
-- 
2.43.0


From 737d5574384d21c40530fb174bf5fa6a2f8e81eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 27/61] fix: first line indentation of vertical text

---
 pdf2docx/text/TextBlock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index ab2cce0..26c56ca 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -365,7 +365,7 @@ class TextBlock(Block):
             # need further external check if two lines only
             return TextAlignment.JUSTIFY if len(rows)>=3 else TextAlignment.UNKNOWN
         elif left_aligned:
-            self.first_line_space = rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
             return TextAlignment.LEFT
         elif right_aligned:
             return TextAlignment.RIGHT
-- 
2.43.0


From fc17ce5e68bac1af30fe221469d1cf982aa02348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 28/61] fix: keep first line indentation of justified
 paragraphs

---
 pdf2docx/text/TextBlock.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 26c56ca..9091ef3 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -363,7 +363,9 @@ class TextBlock(Block):
 
         if left_aligned and right_aligned:
             # need further external check if two lines only
-            return TextAlignment.JUSTIFY if len(rows)>=3 else TextAlignment.UNKNOWN
+            if len(rows) < 3: return TextAlignment.UNKNOWN
+            self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
+            return TextAlignment.JUSTIFY
         elif left_aligned:
             self.first_line_space = (rows[0][0].bbox[idx0] - rows[1][0].bbox[idx0]) * f
             return TextAlignment.LEFT
-- 
2.43.0


From 178f868d53628483a87e129a350b7b5b68a07e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 29/61] fix: position after a line to decide the count of tabs
 before next line

---
 pdf2docx/text/Lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 9dd3f6b..e63cafe 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -353,6 +353,6 @@ class Lines(Collection):
             # update stop position            
             if line==self._instances[-1]: break
             if line.in_same_row(self._instances[i+1]):
-                current_pos = pos + abs(line.bbox[idx1]-block.bbox[idx0])
+                current_pos = block.left_space + abs(line.bbox[idx1]-block.bbox[idx0])
             else:
                 current_pos = block.left_space
\ No newline at end of file
-- 
2.43.0


From d28eb7d8423da289f982b7edbfa1847873ac55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 30/61] fix: add tabs before lines of vertical text

---
 pdf2docx/text/Lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index e63cafe..12791cc 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -343,7 +343,7 @@ class Lines(Collection):
 
         for i, line in enumerate(self._instances):
             # left indentation implemented with tab
-            pos = block.left_space + (line.bbox[idx0]-block.bbox[idx0])
+            pos = block.left_space + abs(line.bbox[idx0]-block.bbox[idx0])
             if pos>block.left_space and block.tab_stops: # sometimes set by first line indentation
                 add_stop(p, Pt(pos), Pt(current_pos))
 
-- 
2.43.0


From e08cbb3588d1c3fd42edd4dde6dd61f8b7b3c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 31/61] fix: keep center position of paragraphs with center
 alignment

---
 pdf2docx/text/TextBlock.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 9091ef3..9628c87 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -294,9 +294,15 @@ class TextBlock(Block):
             pf.alignment = WD_ALIGN_PARAGRAPH.JUSTIFY
 
         # - paragraph indentation
+        # NOTE: the center of a center-aligned block is generally not the center of its container
+        left_space, right_space = self.left_space, self.right_space
+        if self.alignment==TextAlignment.CENTER:
+            left_space += max(self.left_space_total-self.right_space_total, 0.0)
+            right_space += max(self.right_space_total-self.left_space_total, 0.0)
+
         # NOTE: the left space refers to the first line in case hanging, otherwise to the other lines
-        pf.left_indent  = Pt(self.left_space-min(self.first_line_space, 0.0))
-        pf.right_indent  = Pt(self.right_space)
+        pf.left_indent  = Pt(left_space-min(self.first_line_space, 0.0))
+        pf.right_indent  = Pt(right_space)
 
         # - first line indentation
         pf.first_line_indent = Pt(self.first_line_space)
-- 
2.43.0


From 59f5fe8a99e8b8ac9602eae16ac1094c84b609f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:45 +0000
Subject: [PATCH 32/61] fix: same width for all rows of a vertically merged
 cell

---
 pdf2docx/table/Cell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/Cell.py b/pdf2docx/table/Cell.py
index 68d0eee..da21092 100644
--- a/pdf2docx/table/Cell.py
+++ b/pdf2docx/table/Cell.py
@@ -172,7 +172,8 @@ class Cell(Element):
         # ---------------------
         # experience: width of merged cells may change if not setting width for merged cells
         x0, y0, x1, y1 = self.bbox
-        docx_cell.width = Pt(x1-x0)
+        for tr in table._tbl.tr_lst[i:i+n_row]: # consider rows hidden by vertical merging also
+            tr.tc_at_grid_col(j).width = Pt(x1-x0)
 
         # insert contents
         # NOTE: there exists an empty paragraph already in each cell, which should be deleted first to
-- 
2.43.0


From 3f38a89a53ab2d88fa57f183df096b15f60312cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 33/61] fix: no column layout for a page without any elements
 beside its center line

---
 pdf2docx/table/TablesConstructor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index 92a0652..fe21fac 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -68,8 +68,11 @@ class TablesConstructor:
         X = (x0+x1) / 2.0
         column_elements = list(filter(
                 lambda line: line.bbox[2]<X or line.bbox[0]>X, elements))
-        span_elements = filter(
-                lambda line: line.bbox[2]>=X>=line.bbox[0], elements)
+        span_elements = list(filter(
+                lambda line: line.bbox[2]>=X>=line.bbox[0], elements))
+
+        # no columns at all
+        if span_elements and not column_elements: return
         
         # check: intersected elements must on the top or bottom side
         u0, v0, u1, v1 = Collection(column_elements).bbox
-- 
2.43.0


From 282196eb7a1de5ae79480a7905ef272694b9d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 34/61] fix: bottom position of a row in which lines differ in
 height

---
 pdf2docx/text/TextBlock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextBlock.py b/pdf2docx/text/TextBlock.py
index 9628c87..aa80deb 100644
--- a/pdf2docx/text/TextBlock.py
+++ b/pdf2docx/text/TextBlock.py
@@ -238,7 +238,8 @@ class TextBlock(Block):
         if count > 1:
             line_space = (block_height-first_line_height)/(count-1)
         else:
-            line_space = block_height        
+            line_space = block_height
+            first_line_height = block_height # lines in a row may differ in height
         self.line_space = line_space
 
         # since the line height setting in docx may affect the original bbox in pdf, 
-- 
2.43.0


From 8159b69ac0a9a5a87cf1719ab96ace9727c76d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:02 +0000
Subject: [PATCH 35/61] fix: no empty paragraph after a table in cell

---
 pdf2docx/page/Blocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index 7df0d0a..e70c4b2 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -4,11 +4,12 @@
 '''
 
 from docx.shared import Pt
+from docx.table import _Cell
 from ..common import constants
 from ..common.Collection import Collection
 from ..common.share import BlockType, rgb_value
 from ..common.Block import Block
-from ..common.docx import reset_paragraph_format
+from ..common.docx import reset_paragraph_format, delete_paragraph
 from ..text.TextBlock import TextBlock
 from ..text.Line import Line
 from ..text.Lines import Lines
@@ -527,6 +528,9 @@ class Blocks(Collection):
 
             # new table            
             table = doc.add_table(rows=table_block.num_rows, cols=table_block.num_cols)
+            # NOTE: an empty paragraph with default line height is always added after a table in cell
+            if isinstance(doc, _Cell): delete_paragraph(doc.paragraphs[-1])
+
             table.autofit = False
             table.allow_autofit  = False
             table_block.make_docx(table)
-- 
2.43.0


From 55b3ffc5495c0e13e97db0f546fd3af97e2897eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:21 +0000
Subject: [PATCH 36/61] fix: merged cells of rows or columns drawn in slightly
 displaced strokes

---
 pdf2docx/table/TableStructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index a6a04b8..fa2be17 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -391,6 +391,10 @@ class TableStructure:
         # at least 2 inner strokes exist
         if not h_strokes or not v_strokes: return None, None
 
+        # strokes in a same row/column may differ in position slightly, so sort them along the row/column
+        for strokes in h_strokes.values(): strokes.sort_in_line_order()
+        for strokes in v_strokes.values(): strokes.sort_in_reading_order()
+
         # Note: add dummy strokes if no outer strokes exist        
         table_bbox = Element().update_bbox((X0, Y0, X1, Y1)) # table bbox
         TableStructure._check_outer_strokes(table_bbox, h_strokes, 'top', max_border_width)
-- 
2.43.0


From 0fd0fbfaed96cb0a5c2297b7ef7a42255a2e4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 37/61] fix: shading of empty table cells is lost

---
 pdf2docx/table/TablesConstructor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index fe21fac..b5331b1 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -141,7 +141,8 @@ class TablesConstructor:
         grouped_strokes = remove_overlap(grouped_strokes) 
 
         # all filling shapes
-        fills = self._shapes.table_fillings
+        # NOTE: a fill behind an empty cell contains no text, so it's counted as potential highlight
+        fills = Collection([*self._shapes.table_fillings, *self._shapes.text_highlights])
 
         # parse table with each group
         tables = Blocks()
-- 
2.43.0


From e0b2fc81f01284f0b5e8e6eef2f6faf364e4c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 38/61] fix: shading of a table cell with its own background in
 a table with background

---
 pdf2docx/table/TableStructure.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index fa2be17..797ccef 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -76,13 +76,10 @@ class CellStructure:
         inner_bbox = (x0+w_left/2.0, y0+w_top/2.0, x1-w_right/2.0, y1-w_bottom/2.0)
         target = Element().update_bbox(inner_bbox)
 
-        # shading shape of this cell        
-        for shape in fills:
-            if shape.contains(target, threshold=constants.FACTOR_MOST):
-                self.shading = shape
-                break
-        else:
-            self.shading = None
+        # shading shape of this cell: the most specific one, e.g. a cell with its own background
+        # in a table with background
+        candidates = [shape for shape in fills if shape.contains(target, threshold=constants.FACTOR_MOST)]
+        self.shading = min(candidates, key=lambda shape: shape.bbox.getArea()) if candidates else None
 
 
     def _get_border_stroke(self, strokes:Shapes, direction:str='row'):
-- 
2.43.0


From 77d58185ce63d6a9ce0b804c7fdeea85e6e05d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 39/61] fix: separate vector graphics are merged to a single
 picture

---
 pdf2docx/image/ImagesExtractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 43012f3..09ad817 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -87,7 +87,8 @@ class ImagesExtractor:
         contours = cls._detect_svg_contours(page, exclude_areas)
 
         # filter contours
-        fun = lambda a,b: a.bbox & b.bbox
+        # NOTE: the intersection of two separate rects is not a false value
+        fun = lambda a,b: a.bbox.intersects(b.bbox)
         groups = contours.group(fun)
 
         # clip images
-- 
2.43.0


From df7388f96938f9b3ffa9b1ef5fa27bdca0ee5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 40/61] fix: images or tables at page border are counted as
 vector graphics

---
 pdf2docx/image/ImagesExtractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 09ad817..d6f239a 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -116,7 +116,8 @@ class ImagesExtractor:
         gray = cv.cvtColor(src, cv.COLOR_BGR2GRAY)
         for bbox in exclude_areas:
             x0, y0, x1, y1 = map(int, bbox)
-            gray[y0-2:y1+2, x0-2:x1+2] = 255
+            # NOTE: a negative index counts from the end
+            gray[max(y0-2,0):max(y1+2,0), max(x0-2,0):max(x1+2,0)] = 255
             # cv.rectangle(src, (x0,y0), (x1,y1), (0,255,0), 1) # plot excluded areas
 
         # Gauss blur and binary        
-- 
2.43.0


From 40217c837bdcdf534e8e872dd41d0b2def846754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 41/61] fix: vector graphics on a small page fail

---
 pdf2docx/image/ImagesExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index d6f239a..69df384 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -126,7 +126,7 @@ class ImagesExtractor:
         
         # detect contour with opencv
         rows, cols = binary.shape[0:2]
-        kernel = cv.getStructuringElement(cv.MORPH_RECT, (cols//50, rows//50))
+        kernel = cv.getStructuringElement(cv.MORPH_RECT, (max(cols//50,1), max(rows//50,1)))
         dst = cv.morphologyEx(binary, cv.MORPH_CLOSE, kernel) # close
         contours, hierarchy = cv.findContours(dst,cv.RETR_EXTERNAL,cv.CHAIN_APPROX_SIMPLE)
         
-- 
2.43.0


From 82b4cb4134f428a110f433b265bcb7966c8ff463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:42 +0000
Subject: [PATCH 42/61] fix: soft mask with transparency or different size

---
 pdf2docx/image/ImagesExtractor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 69df384..3ebeddb 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -238,10 +238,12 @@ class ImagesExtractor:
             pix = fitz.Pixmap(pix, 1)  
             
             # create pixmap of the /SMask entry
-            ba = bytearray(fitz.Pixmap(doc, s).samples)
-            for i in range(len(ba)):
-                if ba[i] > 0: ba[i] = 255
-            pix.setAlpha(ba)
+            mask = fitz.Pixmap(doc, s)
+            
+            # NOTE: the size of soft mask may be different from the base image
+            if (mask.width, mask.height) != (pix.width, pix.height):
+                mask = fitz.Pixmap(mask, pix.width, pix.height, None)
+            pix.setAlpha(mask.samples)
 
         # we may need to adjust something for CMYK pixmaps here -> 
         # recreate pixmap in RGB color space if necessary
-- 
2.43.0


From b646dbe2cdd59999771bd6290fe5ac9eb9d7b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:04 +0000
Subject: [PATCH 43/61] fix: images on rotated pages are misplaced

---
 pdf2docx/image/ImagesExtractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 3ebeddb..b141f03 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -62,7 +62,8 @@ class ImagesExtractor:
             if not pix.colorspace:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
 
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # NOTE: bbox is relative to the rotated page, while source blocks are relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox * page.derotationMatrix)
             images.append(raw_dict)
         return images
     
-- 
2.43.0


From acea06b2cf27a871a90b59600797a3ca5c846208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 44/61] fix: drawings on rotated pages are lost or misplaced

---
 pdf2docx/page/RawPage.py | 8 ++++++++
 pdf2docx/shape/Path.py   | 5 +++--
 pdf2docx/shape/Shape.py  | 4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 64385ce..4f69d86 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -20,6 +20,7 @@ is described per link https://pymupdf.readthedocs.io/en/latest/textpage.html::
 In addition to the raw layout dict, rectangle shapes are also included.
 '''
 
+import fitz
 from collections import defaultdict
 from ..image.ImagesExtractor import ImagesExtractor
 from ..shape.Paths import Paths
@@ -131,6 +132,13 @@ class RawPage:
         # extract paths ed by `page.getDrawings()`
         raw_paths = self.fitz_page.getDrawings()
 
+        # NOTE: these coordinates are relative to un-rotated page
+        matrix = self.fitz_page.rotationMatrix
+        for raw_path in raw_paths:
+            raw_path['items'] = [
+                tuple(x*matrix if isinstance(x, (fitz.Point, fitz.Rect)) else x for x in item) 
+                    for item in raw_path['items']]
+
         # iso-oriented paths to shapes
         paths = Paths(parent=self).restore(raw_paths)
         shapes, iso_areas, exist_svg = paths.to_shapes(self.settings['curve_path_ratio'])
diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 7b9bd4c..c750b97 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -20,8 +20,9 @@ Data structure based on results of ``page.getDrawings()``::
     }
 
 .. note::
-    The coordinates extracted by ``page.getDrawings()`` is based on **real** page CS, i.e. with rotation 
-    considered. This is different from ``page.getText('rawdict')``.
+    The coordinates extracted by ``page.getDrawings()`` is relative to the un-rotated page, same as 
+    ``page.getText('rawdict')``. They're converted to **real** page CS, i.e. with rotation considered, 
+    before initializing ``Path``.
 '''
 
 import fitz
diff --git a/pdf2docx/shape/Shape.py b/pdf2docx/shape/Shape.py
index 792884e..43dc173 100644
--- a/pdf2docx/shape/Shape.py
+++ b/pdf2docx/shape/Shape.py
@@ -40,8 +40,8 @@ Data structure::
     }
 
 .. note::
-    These coordinates are relative to real page CS since they're extracted from ``page.getDrawings()``,
-    which is based on real page CS. So, needn't to multiply Element.ROTATION_MATRIX when initializing
+    These coordinates are relative to real page CS since paths from ``page.getDrawings()`` have been 
+    converted to real page CS already. So, needn't to multiply Element.ROTATION_MATRIX when initializing
     from source dict.
 '''
 
-- 
2.43.0


From f432c1b158344f25edd0d779223e4d2602d43797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 45/61] fix: vector graphics on rotated pages are misplaced

---
 pdf2docx/image/ImagesExtractor.py | 3 ++-
 pdf2docx/page/RawPage.py          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index b141f03..23d0891 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -97,7 +97,8 @@ class ImagesExtractor:
         for group in groups:
             bbox = group.bbox
             pix = page.getPixmap(clip=bbox, matrix=fitz.Matrix(clip_image_res_ratio, clip_image_res_ratio))
-            raw_dict = cls._to_raw_dict(pix, bbox)
+            # NOTE: contours are relative to the rotated page, while source blocks are relative to un-rotated page
+            raw_dict = cls._to_raw_dict(pix, bbox * page.derotationMatrix)
             images.append(raw_dict)
         
         return images
diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 4f69d86..10c58a9 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -147,7 +147,7 @@ class RawPage:
         # vector graphics (curved paths in general) to images
         if exist_svg:
             excluding_areas = iso_areas
-            excluding_areas.extend([block['bbox'] for block in raw['blocks'] if block['type']==1]) # normal images
+            excluding_areas.extend([fitz.Rect(block['bbox'])*matrix for block in raw['blocks'] if block['type']==1]) # normal images
             images = ImagesExtractor.extract_vector_graphics(
                 self.fitz_page, excluding_areas, self.settings['clip_image_res_ratio'])
             raw['blocks'].extend(images)
-- 
2.43.0


From 7d4231973ca657561674514e037475f37175cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:27 +0000
Subject: [PATCH 46/61] fix: text of explicit rendering mode is shown in
 pictures

---
 pdf2docx/image/ImagesExtractor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index 23d0891..dce8b13 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -10,6 +10,7 @@ Both raster images and vector graphics are considered:
   ``re``, ``m``, ``l`` and ``c``. They're detected by finding the contours with ``opencv``.
 '''
 
+import re
 import fitz
 from ..common.share import BlockType
 from ..common.Collection import Collection
@@ -181,9 +182,12 @@ class ImagesExtractor:
         # - https://www.adobe.com/content/dam/acom/en/devnet/pdf/pdfs/pdf_reference_archives/PDFReference.pdf
         doc = page.parent
         for xref in page.get_contents():
-            stream = doc.xrefStream(xref).replace(b'BT', b'BT 3 Tr') \
-                                             .replace(b'Tm', b'Tm 3 Tr') \
-                                             .replace(b'Td', b'Td 3 Tr')
+            stream = doc.xrefStream(xref)
+            # NOTE: the text rendering mode may be set explicitly
+            stream = re.sub(rb'(?<![^\s])[0-7](?=\s+Tr(?![^\s]))', b'3', stream)
+            stream = stream.replace(b'BT', b'BT 3 Tr') \
+                           .replace(b'Tm', b'Tm 3 Tr') \
+                           .replace(b'Td', b'Td 3 Tr')
             doc.updateStream(xref, stream)
 
 
-- 
2.43.0


From 1372eb6cb1812d778cfb5d70258f84f43f5fcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:36 +0000
Subject: [PATCH 47/61] fix: images on rotated pages are not turned

---
 pdf2docx/image/ImagesExtractor.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pdf2docx/image/ImagesExtractor.py b/pdf2docx/image/ImagesExtractor.py
index dce8b13..34f4aa2 100644
--- a/pdf2docx/image/ImagesExtractor.py
+++ b/pdf2docx/image/ImagesExtractor.py
@@ -62,6 +62,10 @@ class ImagesExtractor:
             # https://github.com/pymupdf/PyMuPDF/issues/677
             if not pix.colorspace:
                 pix = cls._clip_page(page, bbox, zoom=clip_image_res_ratio)
+            
+            # the image turns along with the page
+            elif page.rotation:
+                pix = cls._rotate_pixmap(pix, page.rotation)
 
             # NOTE: bbox is relative to the rotated page, while source blocks are relative to un-rotated page
             raw_dict = cls._to_raw_dict(pix, bbox * page.derotationMatrix)
@@ -213,6 +217,25 @@ class ImagesExtractor:
         return page.getPixmap(clip=bbox, matrix=fitz.Matrix(zoom, zoom)) # type: fitz.Pixmap
 
    
+    @staticmethod
+    def _rotate_pixmap(pix:fitz.Pixmap, rotation:int):
+        """Rotate pixmap clockwise.
+
+        Args:
+            pix (fitz.Pixmap): Pixmap to rotate.
+            rotation (int): Rotation angle in degree, i.e. 90, 180 or 270.
+
+        Returns:
+            fitz.Pixmap: The rotated pixmap.
+        """
+        import numpy as np
+
+        samples = np.frombuffer(pix.samples, np.uint8).reshape((pix.height, pix.width, pix.n))
+        samples = np.rot90(samples, -rotation//90)
+        height, width = samples.shape[:2]
+        return fitz.Pixmap(pix.colorspace, width, height, samples.tobytes(), pix.alpha)
+
+
     @staticmethod
     def _recover_pixmap(doc:fitz.Document, item:list):
         """Restore pixmap with soft mask considered.
-- 
2.43.0


From 110094137fda1b3652944c392dedfa0b0b07699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 48/61] fix: page with filling path of empty area fails

---
 pdf2docx/shape/Path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index c750b97..e746753 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -213,7 +213,7 @@ class Path:
         # path segments
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
-        close_path, w = raw['closePath'], raw['width']
+        close_path, w = raw['closePath'], raw['width'] or 0.0 # no width for filling path
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path)
             self.items.append(S)
-- 
2.43.0


From 78da90023310e1ce0f844060483d39fc8fbe396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 49/61] fix: rectangles drawn with closed lines are lost

---
 pdf2docx/page/RawPage.py |  2 +-
 pdf2docx/shape/Path.py   | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/page/RawPage.py b/pdf2docx/page/RawPage.py
index 10c58a9..33045e2 100644
--- a/pdf2docx/page/RawPage.py
+++ b/pdf2docx/page/RawPage.py
@@ -136,7 +136,7 @@ class RawPage:
         matrix = self.fitz_page.rotationMatrix
         for raw_path in raw_paths:
             raw_path['items'] = [
-                tuple(x*matrix if isinstance(x, (fitz.Point, fitz.Rect)) else x for x in item) 
+                tuple(x*matrix if isinstance(x, (fitz.Point, fitz.Rect, fitz.Quad)) else x for x in item) 
                     for item in raw_path['items']]
 
         # iso-oriented paths to shapes
diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index e746753..90e0672 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -15,6 +15,7 @@ Data structure based on results of ``page.getDrawings()``::
             ("l", p1, p2),         # a line from p1 to p2
             ("c", p1, p2, p3, p4), # cubic Bézier curve from p1 to p4, p2 and p3 are the control points
             ("re", rect),          # a rect
+            ("qu", quad),          # a quad
         ],
         ...
     }
@@ -262,6 +263,17 @@ class Path:
                     segments = []
                 # add this segment
                 segments_list.append([item])
+
+            # quad, e.g. a rectangle drawn with lines, as a separate segments group
+            elif item[0] == 'qu':
+                # close current segments
+                if segments:
+                    segments_list.append(segments)
+                    segments = []
+                # add four sides
+                ul, ur, ll, lr = item[1]
+                segments_list.append([
+                    ('l', ul, ur), ('l', ur, lr), ('l', lr, ll), ('l', ll, ul)])
         
         # add last segments if exists
         if segments: segments_list.append(segments)
-- 
2.43.0


From 35f1944434842d3e1468d2f4aaa92812b8a2db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:57 +0000
Subject: [PATCH 50/61] fix: filled rectangles drawn with lines not closed are
 lost

---
 pdf2docx/shape/Path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/shape/Path.py b/pdf2docx/shape/Path.py
index 90e0672..ea9b934 100644
--- a/pdf2docx/shape/Path.py
+++ b/pdf2docx/shape/Path.py
@@ -215,6 +215,10 @@ class Path:
         self.items = [] # type: list[Segments]
         self.bbox = fitz.Rect()
         close_path, w = raw['closePath'], raw['width'] or 0.0 # no width for filling path
+
+        # NOTE: a filling path is always closed
+        if raw.get('color', None) is None: close_path = True
+
         for segments in self._group_segments(raw['items']):
             S = Segments(segments, close_path)
             self.items.append(S)
-- 
2.43.0


From 921c848f7a7118c09985ad76bcbf1dcc210db78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:07 +0000
Subject: [PATCH 51/61] fix: cells are merged if pieces of a border meet at the
 center of a row or column

---
 pdf2docx/table/TableStructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 797ccef..44f4633 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -564,7 +564,7 @@ class TableStructure:
                     ref0, ref1 = border.x0, border.x1
 
                 # 1) intersection found
-                if ref0 < ref < ref1:
+                if ref0 <= ref <= ref1:
                     res.append(1)
                     break
                 
-- 
2.43.0


From f6d04a238d6ab8d09ae0cfb328093be5be67bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:46 +0000
Subject: [PATCH 52/61] fix: a link or style beside a line that starts lower is
 lost

---
 pdf2docx/text/Lines.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pdf2docx/text/Lines.py b/pdf2docx/text/Lines.py
index 12791cc..24bac62 100644
--- a/pdf2docx/text/Lines.py
+++ b/pdf2docx/text/Lines.py
@@ -271,9 +271,7 @@ class Lines(Collection):
 
         for line in self._instances:
             # any intersection in this line?
-            if not line.intersects_with(rect, constants.MAJOR_DIST): 
-                if rect.bbox.y1 < line.bbox.y0: break # lines must be sorted in advance
-                continue
+            if not line.intersects_with(rect, constants.MAJOR_DIST): continue
 
             # yes, then try to split the spans in this line
             split_spans = []
-- 
2.43.0


From ed9f7636ed92379547a964fbaf4afe64cff790af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:08 +0000
Subject: [PATCH 53/61] fix: text with characters not allowed in xml breaks the
 page

---
 pdf2docx/common/docx.py   | 11 +++++++++++
 pdf2docx/text/TextSpan.py |  8 +++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 97ab975..a63fb43 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -3,6 +3,8 @@
 '''docx operation methods based on ``python-docx``.
 '''
 
+import re
+
 from docx.shared import Pt
 from docx.oxml import OxmlElement, parse_xml, register_element_cls
 from docx.oxml.ns import qn, nsdecls
@@ -17,6 +19,15 @@ from .share import rgb_value
 from . import constants
 
 
+# characters that can't be written to xml, e.g. control characters
+XML_ILLEGAL_CHARS = re.compile('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
+
+def to_xml_text(text:str):
+    '''Replace characters not allowed in xml with the replacement character.'''
+    return XML_ILLEGAL_CHARS.sub('\ufffd', text)
+
+
 # ---------------------------------------------------------
 # paragraph
 # ---------------------------------------------------------
diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 80c33df..0d0e6d3 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -383,13 +383,15 @@ class TextSpan(Element):
             underline, the text and uri is parsed as hyperlink itself, while the underline is treated as a normal text
             style.
         '''
+        text = docx.to_xml_text(self.text)
+
         # Create hyperlink in particular, otherwise add a run directly
         for style in self.style:
             if style['type']==RectType.HYPERLINK.value and self.text.strip():
-                docx_run = docx.add_hyperlink(paragraph, style['uri'], self.text)
+                docx_run = docx.add_hyperlink(paragraph, style['uri'], text)
                 break
         else:
-            docx_run = paragraph.add_run(self.text)
+            docx_run = paragraph.add_run(text)
         
         # set text style, e.g. font, underline and highlight
         self._set_text_format(docx_run)
@@ -412,7 +414,7 @@ class TextSpan(Element):
         docx_run.bold = bool(self.flags & 2**4)
 
         # font name
-        font_name = self.font
+        font_name = docx.to_xml_text(self.font)
         docx_run.font.name = font_name
         docx_run._element.rPr.rFonts.set(qn('w:eastAsia'), font_name) # set font for chinese characters
         docx_run.font.color.rgb = RGBColor(*share.rgb_component(self.color))
-- 
2.43.0


From bcc813004e2f912e8ff95323d1e9460e51032a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:08 +0000
Subject: [PATCH 54/61] fix: no docx is saved if a link address has characters
 not allowed in xml

---
 pdf2docx/common/docx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index a63fb43..5e32fff 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -4,6 +4,7 @@
 '''
 
 import re
+from urllib.parse import quote
 
 from docx.shared import Pt
 from docx.oxml import OxmlElement, parse_xml, register_element_cls
@@ -174,7 +175,9 @@ def add_hyperlink(paragraph, url, text):
     """
 
     # This gets access to the document.xml.rels file and gets a new relation id value
+    # NOTE: characters not allowed in xml are percent-encoded, otherwise the docx can't be saved
     part = paragraph.part
+    url = XML_ILLEGAL_CHARS.sub(lambda m: quote(m.group(), errors='replace'), url)
     r_id = part.relate_to(url, RELATIONSHIP_TYPE.HYPERLINK, is_external=True)
 
     # Create the w:hyperlink tag and add needed values
-- 
2.43.0


From 9f5b478dd5bf5e1a253dcdc693c50304afd4f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:08 +0000
Subject: [PATCH 55/61] fix: text smaller than a quarter of a point breaks the
 page

---
 pdf2docx/text/TextSpan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdf2docx/text/TextSpan.py b/pdf2docx/text/TextSpan.py
index 0d0e6d3..dd0a6bd 100644
--- a/pdf2docx/text/TextSpan.py
+++ b/pdf2docx/text/TextSpan.py
@@ -422,7 +422,7 @@ class TextSpan(Element):
         # font size
         # NOTE: only x.0 and x.5 is accepted in docx, so set character scaling accordingly
         # if the font size doesn't meet this condition.
-        font_size = round(self.size*2)/2.0
+        font_size = max(round(self.size*2)/2.0, 0.5)
         docx_run.font.size = Pt(font_size)
 
         # adjust by set scaling
-- 
2.43.0


From 232fb6138ef8a66f684e8a9c41bc5a2223ebd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:35 +0000
Subject: [PATCH 56/61] fix: hyperlink of text in a table lost if its area
 reaches beyond the table

---
 pdf2docx/shape/Shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdf2docx/shape/Shapes.py b/pdf2docx/shape/Shapes.py
index fd5aefa..943202c 100644
--- a/pdf2docx/shape/Shapes.py
+++ b/pdf2docx/shape/Shapes.py
@@ -233,6 +233,10 @@ class Shapes(Collection):
                 # not possible in current table, then check next table
                 elif not table.bbox.intersects(shape.bbox):
                     continue
+
+                # the hot-area of a hyperlink is generally larger than its text, which may be in the table
+                elif shape.type==RectType.HYPERLINK:
+                    shapes_in_table.append(shape)
             
             # Now, this shape belongs to previous layout
             else:
-- 
2.43.0


From 4d51c9a327f6c41f8696c0788af4834476aa6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:54 +0000
Subject: [PATCH 57/61] fix: missing or overlapped cells if table borders don't
 define rectangular cells

---
 pdf2docx/table/TableStructure.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 44f4633..0cf0b34 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -444,12 +444,28 @@ class TableStructure:
             merged_cells_cols.append(col_structure)
 
         # check merged cells
+        merged = set() # positions of cells which are merged already
         for i in range(self.num_rows):
             for j in range(self.num_cols):
                 cell = self.cells[i][j]
-                # check merged columns/rows in row/column direction
-                n_col = TableStructure._count_merged_cells(merged_cells_rows[i][j:])
-                n_row = TableStructure._count_merged_cells(merged_cells_cols[j][i:])                
+                if (i, j) in merged:
+                    cell.merged_cells = (0, 0)
+                    continue
+
+                # check merged columns/rows in row/column direction, e.g. [1,0,0]
+                # NOTE: start a merged range with any cell not merged yet, and stop at the cells merged already, 
+                # to avoid missing or overlapped cells when the borders don't define rectangular ranges.
+                n_col = TableStructure._count_merged_cells([1]+merged_cells_rows[i][j+1:])
+                n_row = TableStructure._count_merged_cells([1]+merged_cells_cols[j][i+1:])
+                for k in range(j+1, j+n_col):
+                    if (i, k) in merged: 
+                        n_col = k - j
+                        break
+                for k in range(i+1, i+n_row):
+                    if any((k, m) in merged for m in range(j, j+n_col)): 
+                        n_row = k - i
+                        break
+                merged.update((k, m) for k in range(i, i+n_row) for m in range(j, j+n_col))
                 cell.merged_cells = (n_row, n_col)
 
                 # update merged bbox
-- 
2.43.0


From 067a53472901efe7f8ff2ffc7e8eaf1e54bce447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:48 +0000
Subject: [PATCH 58/61] fix: page broken by a table row the cells of which are
 all merged by previous rows

---
 pdf2docx/table/TableStructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/table/TableStructure.py b/pdf2docx/table/TableStructure.py
index 0cf0b34..3d26d86 100644
--- a/pdf2docx/table/TableStructure.py
+++ b/pdf2docx/table/TableStructure.py
@@ -297,6 +297,9 @@ class TableStructure:
                 row.append(cell)                    
             
             # add row to table
+            # NOTE: a row without any cell, i.e. all merged by previous rows, still takes its place in table
+            if not row: 
+                row.update_bbox(row_structures[0].bbox | row_structures[-1].bbox)
             table.append(row)
 
         # finalize table structure
-- 
2.43.0


From 25b5bfa8af1f73be335e027a1858cb138be2d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:59 +0000
Subject: [PATCH 59/61] fix: text duplicated if it is in two overlapping tables

---
 pdf2docx/page/Blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf2docx/page/Blocks.py b/pdf2docx/page/Blocks.py
index e70c4b2..a7d4ed2 100644
--- a/pdf2docx/page/Blocks.py
+++ b/pdf2docx/page/Blocks.py
@@ -611,6 +611,9 @@ class Blocks(Collection):
                 # lines not in table for further check
                 if not_table_lines:
                     lines = not_table_lines
+                    if table_lines: # the rest part of this block
+                        block = TextBlock()
+                        block.add(lines)
                 else:
                     break # no more lines
         
-- 
2.43.0


From af1440becb137ad1bdbe1ce8f3629894984519a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:17 +0000
Subject: [PATCH 60/61] fix: stretched images are written with wrong height

---
 pdf2docx/common/docx.py      | 10 ++++++----
 pdf2docx/image/Image.py      |  3 ++-
 pdf2docx/image/ImageBlock.py |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdf2docx/common/docx.py b/pdf2docx/common/docx.py
index 5e32fff..7d42f5a 100644
--- a/pdf2docx/common/docx.py
+++ b/pdf2docx/common/docx.py
@@ -212,17 +212,18 @@ def add_hyperlink(paragraph, url, text):
 # ---------------------------------------------------------
 # image properties
 # ---------------------------------------------------------
-def add_image(p, image_path_or_stream, width):
+def add_image(p, image_path_or_stream, width, height):
     ''' Add image to paragraph.
     
     Args:
         p (Paragraph): ``python-docx`` paragraph instance.
         image_path_or_stream (str, bytes): Image path or stream.
         width (float): Image width in Pt.
+        height (float): Image height in Pt.
     '''
     docx_span = p.add_run()
     try:
-        docx_span.add_picture(image_path_or_stream, width=Pt(width))
+        docx_span.add_picture(image_path_or_stream, width=Pt(width), height=Pt(height))
     except UnrecognizedImageError:
         print('Unrecognized Image.')
         return
@@ -296,20 +297,21 @@ class _CT_Anchor(BaseOxmlElement):
 register_element_cls('wp:anchor', _CT_Anchor)
 
 
-def add_float_image(p, image_path_or_stream, width, pos_x=None, pos_y=None):
+def add_float_image(p, image_path_or_stream, width, height, pos_x=None, pos_y=None):
     '''Add float image behind text.
     
     Args:
         p (Paragraph): ``python-docx`` Paragraph object this picture belongs to.
         image_path_or_stream (str, bytes): Image path or stream.
         width (float): Displaying width of picture, in unit Pt.
+        height (float): Displaying height of picture, in unit Pt.
         pos_x (float): X-position (English Metric Units) to the top-left point of page valid region
         pos_y (float): Y-position (English Metric Units) to the top-left point of page valid region
     '''
     run = p.add_run()
     # parameters for picture, e.g. id, name
     rId, image = run.part.get_or_add_image(image_path_or_stream)
-    cx, cy = image.scaled_dimensions(Pt(width), None)
+    cx, cy = image.scaled_dimensions(Pt(width), Pt(height))
     shape_id, filename = run.part.next_id, image.filename
     anchor = _CT_Anchor.new_pic_anchor(shape_id, rId, filename, cx, cy, Pt(pos_x), Pt(pos_y))
     run._r.add_drawing(anchor)
diff --git a/pdf2docx/image/Image.py b/pdf2docx/image/Image.py
index 676d24d..5d449b2 100644
--- a/pdf2docx/image/Image.py
+++ b/pdf2docx/image/Image.py
@@ -94,4 +94,5 @@ class Image(Element):
     def make_docx(self, paragraph):
         '''Add image span to a docx paragraph.'''
         # add image
-        docx.add_image(paragraph, BytesIO(self.image), self.bbox.x1-self.bbox.x0)
\ No newline at end of file
+        x0, y0, x1, y1 = self.bbox
+        docx.add_image(paragraph, BytesIO(self.image), x1-x0, y1-y0)
\ No newline at end of file
diff --git a/pdf2docx/image/ImageBlock.py b/pdf2docx/image/ImageBlock.py
index 16c8874..c35db2a 100644
--- a/pdf2docx/image/ImageBlock.py
+++ b/pdf2docx/image/ImageBlock.py
@@ -92,7 +92,7 @@ class ImageBlock(Image, Block): # to get Image.plot() in first priority
         '''
         if self.is_float_image_block():
             x0, y0, x1, y1 = self.bbox
-            add_float_image(p, BytesIO(self.image), width=x1-x0, pos_x=x0, pos_y=y0)
+            add_float_image(p, BytesIO(self.image), width=x1-x0, height=y1-y0, pos_x=x0, pos_y=y0)
         else:
             super().make_docx(p)
         return p
\ No newline at end of file
-- 
2.43.0


From 45a2aaa798e1af5fd9b47a24bee11e23e52687ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:16 +0000
Subject: [PATCH 61/61] fix: page layout table overlaps adjacent lines or
 exceeds the page

---
 pdf2docx/table/TablesConstructor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdf2docx/table/TablesConstructor.py b/pdf2docx/table/TablesConstructor.py
index b5331b1..37975af 100644
--- a/pdf2docx/table/TablesConstructor.py
+++ b/pdf2docx/table/TablesConstructor.py
@@ -80,7 +80,11 @@ class TablesConstructor:
 
         # create dummy strokes for table parsing        
         m0, m1 = (x0+u0)/2.0, (x1+u1)/2.0
-        n0, n1 = v0-constants.MAJOR_DIST, v1+constants.MAJOR_DIST        
+        # NOTE: neither overlap the elements above/below, nor exceed the layout region
+        upper = [e.bbox[3] for e in span_elements if e.bbox[3]<v0]
+        lower = [e.bbox[1] for e in span_elements if e.bbox[1]>v1]
+        n0 = min(v0, max([v0-constants.MAJOR_DIST, y0, *upper]))
+        n1 = max(v1, min([v1+constants.MAJOR_DIST, y1, *lower]))
         strokes = [
             Stroke().update_bbox((m0, n0, m1, n0)), # top
             Stroke().update_bbox((m0, n1, m1, n1)), # bottom
-- 
2.43.0

