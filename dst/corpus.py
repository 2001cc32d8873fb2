"""PDF documents for the simulated runs, generated from a small JSON spec.

A spec is {"seed": int, "pages": [pagespec, ...], "share": bool}; a pagespec is
{"kind": name, "rot": 0|90|180|270, "size": "a4"|...,"id": n}. The same spec
gives the same document bytes (as far as conversion can see) in any process, so
a replay file only has to carry the spec. Every page carries a marker word that
occurs nowhere else in the document.
"""
import random
import struct
import zlib

import fitz

SIZES = {'a4': (595, 842), 'letter': (612, 792), 'a5': (420, 595), 'wide': (842, 595), 'sq': (500, 500),
         'a4f': (595.28, 841.89), 'a5f': (419.53, 595.28), 'odd': (487.35, 611.62), 'low': (700.5, 330.25)}
WORDS = ('lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor '
         'incididunt labore magna aliqua enim minim veniam quis nostrud ullamco laboris '
         'nisi aliquip commodo duis aute irure velit esse cillum fugiat nulla pariatur').split()
FONTS = ('helv', 'hebo', 'heit', 'hebi', 'tiro', 'tibo', 'tiit', 'cour', 'cobo')


TINT = 0       # a document of the same structure, but with other words and pictures


def marker(pagespec, i):
    return 'MK%dX%d' % (pagespec.get('id', 0), i)


def png(w, h, rng, alpha=False, gray=False):
    """a tiny PNG whose pixels depend on the generator only."""
    ch = 1 if gray else (4 if alpha else 3)
    base = [(rng.randrange(256) + 67 * TINT) % 256 for _ in range(ch)]
    rows = bytearray()
    for y in range(h):
        rows.append(0)
        for x in range(w):
            for c in range(ch):
                v = (base[c] + 7 * x * (c + 1) + 13 * y) % 256
                if alpha and c == 3:
                    v = 255 if (x + y) % 3 else 0
                rows.append(v)
    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d) & 0xffffffff)
    ct = 0 if gray else (6 if alpha else 2)
    return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, ct, 0, 0, 0))
            + chunk(b'IDAT', zlib.compress(bytes(rows), 9)) + chunk(b'IEND', b''))


class Pen:
    """Draws features top-down on one page (un-rotated coordinates)."""

    def __init__(self, page, rng, mk):
        self.page, self.rng, self.mk = page, rng, mk
        self.w, self.h = page.rect.width, page.rect.height
        self.y = 50.0
        self.n = 0

    # -- helpers
    def words(self, n):
        return ' '.join(WORDS[(self.rng.randrange(len(WORDS)) + TINT) % len(WORDS)] for _ in range(n))

    def color(self):
        return tuple(round(self.rng.choice((0, .2, .5, .8, 1)), 2) for _ in range(3))

    def dark(self):
        return tuple(round(self.rng.choice((0, .1, .3, .5)), 2) for _ in range(3))

    def text(self, x, y, s, size=11, font='helv', color=(0, 0, 0), rotate=0):
        self.page.insert_text((x, y), s, fontsize=size, fontname=font, color=color, rotate=rotate)
        return fitz.get_text_length(s, fontname=font, fontsize=size)

    def tag(self):
        self.n += 1
        return '%sn%d' % (self.mk, self.n)

    def room(self, h):
        return self.y + h < self.h - 30

    # -- features
    def para(self, align=None, lines=None):
        r = self.rng
        size = r.choice((9, 10, 11, 12, 14))
        font, color = r.choice(FONTS), r.choice(((0, 0, 0), self.dark()))
        align = align or r.choice(('left', 'center', 'right', 'justify', 'indent'))
        n = lines or r.choice((1, 2, 3, 4))
        step = size * r.choice((1.2, 1.5))
        if not self.room(step * n + 20): return
        x0, x1 = 70.0, self.w - 70.0
        for k in range(n):
            s = (self.tag() + ' ' if k == 0 else '') + self.words(r.choice((3, 4, 5)))
            if k == 0 and r.random() < .2: s = s + ' caf\xe9 \xa7 \xb5'
            wd = fitz.get_text_length(s, fontname=font, fontsize=size)
            y = self.y + size + k * step
            if align == 'left': x = x0
            elif align == 'indent': x = x0 + (24 if k == 0 else 0)
            elif align == 'center': x = (x0 + x1 - wd) / 2
            elif align == 'right': x = x1 - wd
            else:
                # spread words over the line width
                ws = s.split()
                tot = sum(fitz.get_text_length(w, fontname=font, fontsize=size) for w in ws)
                width = min(x1 - x0, 260)
                gap = (width - tot) / max(len(ws) - 1, 1)
                gap = max(gap, 3)
                x = x0
                for w in ws:
                    x += self.text(x, y, w, size, font, color) + gap
                continue
            self.text(x, y, s, size, font, color)
        self.y += step * n + r.choice((8, 16, 24))

    def mixed(self):
        """one line of several spans: fonts, sizes, colours; maybe scaled text"""
        if not self.room(30): return
        r = self.rng
        x = 70.0
        first = True
        for _ in range(r.choice((2, 3))):
            s = (self.tag() + ' ' if first else '') + self.words(1) + ' '
            first = False
            x += self.text(x, self.y + 12, s, r.choice((10, 12)), r.choice(FONTS), self.dark())
        self.y += 30

    def tabs(self):
        if not self.room(30): return
        r = self.rng
        x = 70.0
        for k in range(3):
            self.text(x, self.y + 12, (self.tag() if k == 0 else self.words(1)), 11, 'helv')
            x += r.choice((110, 130, 150))
        self.y += 30

    def marked(self):
        """highlight / underline / strike-through / hyperlink on parts of a line"""
        if not self.room(34): return
        r = self.rng
        y = self.y + 14
        x = 70.0
        parts = [self.tag() + ' ', self.words(1) + ' ', self.words(2) + ' ', self.words(1)]
        for k, s in enumerate(parts):
            wd = fitz.get_text_length(s.rstrip(), fontname='helv', fontsize=12)
            style = r.choice(('none', 'hl', 'ul', 'st', 'link', 'hl2', 'link ul', 'hl ul', 'hl st', 'ul st', 'link hl')) if k else 'none'
            style = style.split()
            if 'hl' in style or 'hl2' in style:
                c = r.choice(((1, 1, 0), (0, 1, 1), (0, 1, 0))) if 'hl' in style else (.9, .7, .5)
                self.page.draw_rect(fitz.Rect(x, y - 10, x + wd, y + 3), color=None, fill=c)
            if 'ul' in style:
                self.page.draw_line((x, y + 1.5), (x + wd, y + 1.5), color=self.dark(), width=.8)
            if 'st' in style:
                self.page.draw_line((x, y - 4), (x + wd, y - 4), color=self.dark(), width=.8)
            if 'link' in style:
                self.page.insert_link({'kind': fitz.LINK_URI, 'from': fitz.Rect(x, y - 10, x + wd, y + 3),
                                       'uri': 'http://example.org/%s/%d' % (self.mk, k)})
            x += self.text(x, y, s, 12, 'helv')
        self.y += 34

    def lattice(self, rows=None, cols=None, nested=False, style=None):
        r = self.rng
        rows, cols = rows or r.choice((1, 2, 3)), cols or r.choice((1, 2, 3))
        if nested: rows, cols = 2, 2
        ch = 80.0 if nested else 26.0
        if not self.room(rows * ch + 20): return
        x0, y0 = 70.0, self.y
        cw = r.choice((80.0, 110.0)) if not nested else 150.0
        bw = r.choice((.5, 1.0, 2.0))
        bc = r.choice(((0, 0, 0), self.dark()))
        merged = rows > 1 and cols > 1 and not nested and r.random() < .5
        hmerge = merged and r.random() < .5
        # shading first
        for i in range(rows):
            for j in range(cols):
                if merged and i < 2 and j < 2: continue
                if r.random() < .3:
                    self.page.draw_rect(fitz.Rect(x0 + j * cw, y0 + i * ch, x0 + (j + 1) * cw, y0 + (i + 1) * ch),
                                        color=None, fill=r.choice(((.8, .9, 1), (1, .9, .6), (.7, .7, .7), (0, 0, 0), (1, 1, 1))))
        own = r.random() < .3      # every line has width and colour of its own
        open_ = r.random() < .15 and not nested    # no left and right border
        style = lambda: {'color': r.choice(((0, 0, 0), self.dark(), (1, 0, 0))), 'width': r.choice((.4, 1.0, 1.5, 3.0))} if own else {'color': bc, 'width': bw}
        for i in range(rows + 1):
            skip = merged and not hmerge and i == 1
            self.page.draw_line((x0 + (cw if skip else 0), y0 + i * ch), (x0 + cols * cw, y0 + i * ch), **style())
        for j in range(cols + 1):
            skip = merged and hmerge and j == 1
            if open_ and j in (0, cols): continue
            self.page.draw_line((x0 + j * cw, y0 + (ch if skip else 0)), (x0 + j * cw, y0 + rows * ch), **style())
        vert = r.random() < .15 and not nested and ch < 50
        for i in range(rows):
            for j in range(cols):
                if merged and (i, j) == ((0, 1) if hmerge else (1, 0)): continue
                s = self.tag() if (i, j) == (0, 0) else self.words(1)
                if nested and (i, j) == (0, 1):
                    xx, yy = x0 + cw + 20, y0 + 12
                    for k in range(3):
                        self.page.draw_line((xx, yy + k * 24), (xx + 100, yy + k * 24), color=(0, 0, 0), width=.7)
                        self.page.draw_line((xx + k * 50, yy), (xx + k * 50, yy + 48), color=(0, 0, 0), width=.7)
                    for a in range(2):
                        for b in range(2):
                            self.text(xx + 4 + b * 50, yy + 16 + a * 24, self.words(1)[:6], 9)
                    continue
                if r.random() < .85 or (i, j) == (0, 0):
                    self.text(x0 + j * cw + 5, y0 + i * ch + 17, s, 10, r.choice(('helv', 'hebo')), r.choice(((0, 0, 0), (0, 0, 0), (.6, .6, .6), (.9, .1, .1))))
                elif r.random() < .4 and not nested:
                    self.page.insert_image(fitz.Rect(x0 + j * cw + 6, y0 + i * ch + 4, x0 + j * cw + 30, y0 + i * ch + 22), stream=png(8, 6, r))
        self.y += rows * ch + 20

    def stream(self):
        """border-less table: words aligned in columns"""
        r = self.rng
        rows, cols = r.choice((3, 4)), r.choice((2, 3))
        if not self.room(rows * 20 + 30): return
        shaded = r.random() < .5
        if shaded:
            self.page.draw_rect(fitz.Rect(66, self.y, 66 + cols * 140, self.y + 20), color=None, fill=(.8, .85, 1))
        for i in range(rows):
            for j in range(cols):
                s = self.tag() if (i, j) == (0, 0) else self.words(1)
                self.text(70 + j * 140, self.y + 14 + i * 20, s, 10)
        self.y += rows * 20 + 24

    def image(self, alpha=None):
        r = self.rng
        if not self.room(80): return
        alpha = r.random() < .4 if alpha is None else alpha
        w, h = r.choice(((24, 18), (16, 16), (30, 12)))
        x = r.choice((80.0, 200.0))
        self.page.insert_image(fitz.Rect(x, self.y, x + w * 3, self.y + h * 3), stream=png(w, h, r, alpha))
        self.y += h * 3 + 16

    def floating(self):
        """an image under text: a floating image"""
        if not self.room(90): return
        r = self.rng
        self.page.insert_image(fitz.Rect(80, self.y, 200, self.y + 66), stream=png(20, 11, r))
        self.text(90, self.y + 20, self.tag() + ' ' + self.words(3), 11)
        self.text(90, self.y + 36, self.words(4), 11)
        self.y += 84

    def overlap(self):
        """two overlapping images and no text: both are floating images"""
        if not self.room(120): return
        r = self.rng
        self.page.insert_image(fitz.Rect(80, self.y, 180, self.y + 60), stream=png(20, 12, r))
        self.page.insert_image(fitz.Rect(120, self.y + 20, 220, self.y + 80), stream=png(15, 9, r))
        self.y += 120

    def stacked(self):
        """different images at one place, and almost at one place"""
        if not self.room(100): return
        r = self.rng
        x = r.choice((80.0, 240.0))
        for k in range(r.choice((2, 3, 4))):
            d = r.choice((0, 0, .2, 6))
            self.page.insert_image(fitz.Rect(x + d, self.y + d, x + d + 90, self.y + d + 60), stream=png(18, 12, r, r.random() < .3))
        self.y += 96

    def twice(self):
        """one image shown at two places"""
        if not self.room(60): return
        data = png(14, 10, self.rng)
        x = self.page.insert_image(fitz.Rect(80, self.y, 136, self.y + 40), stream=data)
        self.page.insert_image(fitz.Rect(260, self.y, 316, self.y + 40), xref=x)
        self.y += 56

    def curves(self):
        """vector graphics: many bezier curves, becomes a bitmap"""
        if not self.room(110): return
        r = self.rng
        c = (150.0, self.y + 50)
        for k in range(4):
            self.page.draw_circle((c[0] + 12 * k, c[1]), 30 - 5 * k, color=self.dark(), fill=self.color(), width=1)
        self.page.draw_bezier((80, c[1]), (120, c[1] - 40), (200, c[1] + 40), (240, c[1]), color=(0, 0, 0), width=1.5)
        self.y += 116

    def vertical(self):
        if not self.room(120): return
        self.text(100, self.y + 100, self.tag() + ' ' + self.words(1), 11, rotate=90)
        self.y += 116

    def columns(self):
        if not self.room(120): return
        y = self.y
        for col in range(2):
            for k in range(6):
                self.text(70 + col * (self.w / 2 - 40), y + 12 + 14 * k,
                          (self.tag() if k == 0 else self.words(2)), 10)
        self.y += 110

    def intl(self):
        """non-Latin text; a line printed twice with a small offset (fake bold), which the converter reports"""
        if not self.room(70): return
        r = self.rng
        y = self.y + 14
        s = self.tag() + ' caf\xe9 \xfcber \xdf' + self.words(1)
        self.text(70, y, s, 12, 'helv')
        if r.random() < .8: self.text(70.4, y + .4, s, 12, 'helv')
        cjk = ''.join(chr(r.choice((0x4e2d, 0x6587, 0x65e5, 0x672c, 0x5b57, 0x4eba))) for _ in range(5))
        self.text(70, y + 24, cjk, 12, 'china-s')
        if r.random() < .8: self.text(70.4, y + 24.4, cjk, 12, 'china-s')
        self.y += 64

    def rules(self):
        """separating lines, a side bar, and text close to them; widths around the limit of a border"""
        if not self.room(90): return
        r = self.rng
        y = self.y
        self.page.draw_line((70, y + 4), (self.w - 70, y + 4), color=self.dark(), width=r.choice((.5, 2, 5, 8)))
        self.text(74, y + 24, self.tag() + ' ' + self.words(3), 11)
        self.page.draw_line((66, y + 32), (66, y + 70), color=self.dark(), width=r.choice((1, 4, 8)))
        self.text(76, y + 44, self.words(4), 11)
        self.text(76 + r.choice((0, 1.5, 3)), y + 60, self.words(3), 11)
        self.page.draw_rect(fitz.Rect(200, y + 74, 200 + r.choice((1.5, 3, 40)), y + 75.5), color=None, fill=self.dark())
        self.y += 84

    def indexes(self):
        """superscripts, small gaps, words overlapping each other, lines of unequal height"""
        if not self.room(80): return
        r = self.rng
        y = self.y + 14
        x = 70.0
        x += self.text(x, y, self.tag() + ' E = mc', 12)
        x += self.text(x, y - 5, '2', 7) + r.choice((1, 3, 6, 12, 30))
        x += self.text(x, y, self.words(2), 12, 'tiro') + r.choice((-4, 1, 22))
        self.text(x, y, self.words(1), 16, 'hebo', self.dark())
        self.text(70, y + 22, self.words(3), 10)
        self.text(70 + r.choice((0, 90, 200)), y + 22 + r.choice((2, 6, 11)), self.words(2), 10)
        self.y += 70

    def shaded(self):
        """border-less rows with shading of several colours, and rows apart by different distances"""
        r = self.rng
        rows, cols = r.choice((3, 4)), r.choice((2, 3))
        if not self.room(rows * 24 + 30): return
        y = self.y
        for i in range(rows):
            if r.random() < .6: self.page.draw_rect(fitz.Rect(66, y, 66 + cols * 130, y + 18), color=None, fill=r.choice(((.8, .85, 1), (.9, .9, .9), (0, 0, 0), (1, .8, .8))))
            if r.random() < .3: self.page.draw_line((66, y), (66 + cols * 130, y), color=self.dark(), width=r.choice((.5, 2)))
            for j in range(cols):
                self.text(70 + j * 130, y + 13, self.tag() if (i, j) == (0, 0) else self.words(r.choice((1, 1, 2))), 10, color=r.choice(((0, 0, 0), (.5, .5, .5))))
            y += 18 + r.choice((0, .5, 3, 8))
        self.y = y + 20

    def outside(self):
        """text and shapes partly or entirely out of the page"""
        r = self.rng
        self.text(self.w - 30, self.y + 12, self.words(2), 11)
        self.text(-80, self.y + 12, self.words(1), 11)
        self.page.draw_rect(fitz.Rect(-20, self.y + 20, 60, self.y + 40), color=(0, 0, 0), fill=(.8, .8, 1))
        self.page.insert_image(fitz.Rect(self.w + 20, self.y, self.w + 80, self.y + 30), stream=png(8, 4, r))
        self.y += 48

    def halfcurve(self):
        """one path of lines and a few curves, touching a frame of plain lines"""
        if not self.room(90): return
        r = self.rng
        y = self.y
        sh = self.page.new_shape()
        n = r.choice((1, 2, 3))
        x = 80.0
        for k in range(6):
            if k < n: sh.draw_bezier((x, y + 30), (x + 10, y + 10), (x + 20, y + 50), (x + 30, y + 30))
            else: sh.draw_line((x, y + 30), (x + 30, y + 30))
            x += 30
        sh.finish(color=self.dark(), width=1, closePath=False)
        sh.commit()
        self.page.draw_rect(fitz.Rect(80, y + 30, 200, y + 70), color=(0, 0, 0), width=1)
        self.text(90, y + 54, self.tag() + ' ' + self.words(1), 10)
        self.y += 84

    def fill(self):
        """paragraphs down to the bottom margin"""
        while self.room(90): self.para(lines=self.rng.choice((3, 4)))
        self.text(70, self.h - 14, self.tag() + ' ' + self.words(2), 9)

    def boxed(self):
        """one bordered, shaded cell around a paragraph"""
        if not self.room(70): return
        self.page.draw_rect(fitz.Rect(70, self.y, self.w - 70, self.y + 52), color=self.dark(),
                            fill=(.93, .95, .8), width=1.2)
        self.text(80, self.y + 20, self.tag() + ' ' + self.words(3), 11)
        self.text(80, self.y + 38, self.words(4), 11, 'tiro')
        self.y += 70


KINDS = {
    'text': ('para', 'para', 'mixed'),
    'align': ('para', 'para', 'para', 'tabs'),
    'marks': ('marked', 'para', 'marked'),
    'links': ('marked', 'marked', 'mixed'),
    'lattice': ('para', 'lattice', 'para'),
    'tables2': ('lattice', 'lattice'),
    'nested': ('para', 'nested'),
    'stream': ('para', 'stream', 'para'),
    'image': ('para', 'image', 'para'),
    'alpha': ('alpha', 'para'),
    'floating': ('para', 'floating', 'para'),
    'twice': ('para', 'twice', 'para'),
    'overlap': ('overlap',),
    'curves': ('para', 'curves', 'para'),
    'vertical': ('vertical', 'para'),
    'columns': ('columns', 'para'),
    'stacked': ('para', 'stacked'),
    'halfcurve': ('halfcurve', 'para'),
    'full': ('marked', 'fill'),
    'rules': ('rules', 'para', 'rules'),
    'indexes': ('indexes', 'para', 'indexes'),
    'shaded': ('shaded', 'para'),
    'outside': ('para', 'outside', 'para'),
    'boxed': ('para', 'boxed', 'marked'),
    'tableend': ('para', 'lattice'),
    'onlytable': ('lattice',),
    'onlystream': ('stream',),
    'mixed': ('para', 'marked', 'lattice', 'image', 'stream'),
    'rich': ('para', 'floating', 'lattice', 'marked', 'stream', 'curves'),
    'tiny': ('para1',),
    'intl': ('intl', 'para'),
    'empty': (),
}
RICH_KINDS = [k for k in KINDS if k not in ('empty', 'tiny')]
LIGHT_KINDS = ['text', 'align', 'marks', 'links', 'lattice', 'tables2', 'stream', 'image', 'alpha', 'floating',
               'twice', 'stacked', 'rules', 'indexes', 'shaded', 'outside', 'tableend', 'onlytable', 'onlystream', 'boxed', 'tiny', 'vertical', 'intl']


def draw_page(page, spec, i, rng):
    pen = Pen(page, rng, marker(spec, i))
    for f in KINDS[spec['kind']]:
        if f == 'nested': pen.lattice(nested=True)
        elif f == 'alpha': pen.image(alpha=True)
        elif f == 'para1': pen.para(align='left', lines=1)
        else: getattr(pen, f)()


def build(spec):
    """spec -> PDF bytes"""
    global TINT
    TINT = spec.get('tint', 0)
    doc = fitz.open()
    for i, ps in enumerate(spec['pages']):
        w, h = SIZES[ps.get('size', 'a4')]
        page = doc.new_page(width=w, height=h)
        rng = random.Random('%s/%s/%s' % (spec.get('seed', 0), ps.get('id', i), ps['kind']))
        draw_page(page, ps, i if 'mk' not in ps else ps['mk'], rng)
        if ps.get('crop'): page.set_cropbox(fitz.Rect(*ps['crop'][:2], w - ps['crop'][2], h - ps['crop'][3]))
        if ps.get('rot'): page.set_rotation(ps['rot'])
    if spec.get('share'):
        # all pages of equal kind "share" show one common content stream (letter head)
        # in addition to their own: page 0's second stream is put in front on every page
        head = doc.new_page(width=595, height=842)
        rng = random.Random('head/%s' % spec.get('seed', 0))
        if spec['share'] == 'alpha':
            head.insert_image(fitz.Rect(380, 10, 440, 30), stream=png(12, 4, rng, True))
        head.insert_text((300, 36), 'LETTERHEAD', fontsize=9, color=(.8, .1, .1))
        head.draw_line((60, 40), (535, 40), color=(.8, .1, .1), width=.8)
        hx = head.get_contents()
        res = doc.xref_get_key(head.xref, 'Resources')
        for i in range(len(spec['pages'])):
            p = doc[i]
            own = p.get_contents()
            doc.xref_set_key(p.xref, 'Contents', '[' + ' '.join('%d 0 R' % x for x in hx + own) + ']')
            # fonts/images of the head under the page's own resources
            for fx in head.get_fonts():
                p.insert_font(fontname=fx[4])
        doc.delete_page(len(spec['pages']))
    enc = {}
    if spec.get('damage'):
        damage(doc, spec['damage'])
    if spec.get('encrypt'):
        # 'user': cannot be read without the password; 'owner': everybody may read
        pw = {'owner_pw': 'owner', 'user_pw': 'user' if spec['encrypt'] == 'user' else ''}
        data = doc.tobytes(encryption=fitz.PDF_ENCRYPT_AES_256, permissions=-1, **pw)
        doc.close()
        return data
    data = doc.tobytes(no_new_id=True) if spec.get('plain') else doc.tobytes(deflate=True, no_new_id=True)
    doc.close()
    # without cross-reference table or tail: readers repair it in memory
    if spec.get('broken') == 'xref': data = data.replace(b'startxref', b'startXref')
    elif spec.get('broken') == 'tail': data = data[:data.rindex(b'startxref')]
    return data


def damage(doc, dmg):
    """flip bytes in one page's content stream: {'page': i, 'seed': n, 'n': count, 'mode': ...}"""
    rng = random.Random('damage/%s' % dmg['seed'])
    page = doc[dmg['page']]
    xs = page.get_contents()
    if not xs: return
    x = rng.choice(xs)
    s = bytearray(doc.xref_stream(x) or b'')
    if not s: return
    mode = dmg.get('mode', 'flip')
    if mode == 'trunc':
        s = s[:rng.randrange(len(s))]
    elif mode == 'zero':
        a = rng.randrange(len(s)); s[a:a + dmg.get('n', 8)] = b'\0' * dmg.get('n', 8)
    else:
        for _ in range(dmg.get('n', 4)):
            s[rng.randrange(len(s))] = rng.randrange(256)
    doc.update_stream(x, bytes(s))


def random_spec(rng, npages=None, kinds=None, rotate=.2, share=.0, maxpages=4):
    kinds = kinds or RICH_KINDS
    n = npages or rng.randint(2, maxpages)
    pages = []
    for i in range(n):
        ps = {'kind': rng.choice(kinds), 'id': rng.randrange(10 ** 6),
              'size': rng.choice(('a4', 'a4', 'letter', 'a5', 'wide', 'a4f', 'a5f', 'odd', 'low'))}
        if rng.random() < rotate: ps['rot'] = rng.choice((90, 180, 270))
        if rng.random() < .06: ps['crop'] = [rng.choice((0, 20, 33.5)) for _ in range(4)]
        pages.append(ps)
    spec = {'seed': rng.randrange(10 ** 6), 'pages': pages}
    if rng.random() < share:
        spec['share'] = True
    return spec
