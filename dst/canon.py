"""Canonical form of a .docx: one fragment per section (= PDF page).

Two documents with equal canonical forms hold the same content, formatting,
order, pages and images. What is normalised away is only identity-like data
that has no meaning for a reader: relationship ids (replaced by the hash of the
target), drawing ids and picture names, part names of images, and the encoding of the section break.
"""
import hashlib
import posixpath
import zipfile

from lxml import etree

W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
WP = 'http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing'
PIC = 'http://schemas.openxmlformats.org/drawingml/2006/picture'
REL = 'http://schemas.openxmlformats.org/package/2006/relationships'
XMLNS = 'http://www.w3.org/XML/1998/namespace'


class BadDocx(Exception):
    pass


def _h(b): return hashlib.sha256(b).hexdigest()[:16]


def read(path_or_file):
    """-> dict name->bytes, after full integrity check (CRC of every part)."""
    try:
        with zipfile.ZipFile(path_or_file) as z:
            bad = z.testzip()
            if bad: raise BadDocx('bad CRC in ' + bad)
            names = z.namelist()
            if len(set(names)) != len(names): raise BadDocx('duplicate parts')
            return {n: z.read(n) for n in names}
    except BadDocx:
        raise
    except Exception as e:
        raise BadDocx('%s: %s' % (type(e).__name__, e))


def _rels(parts):
    name = 'word/_rels/document.xml.rels'
    out = {}
    if name in parts:
        for rel in etree.fromstring(parts[name]):
            rid, tgt, mode = rel.get('Id'), rel.get('Target'), rel.get('TargetMode')
            if mode == 'External':
                out[rid] = 'url:' + tgt
            else:
                p = tgt[1:] if tgt.startswith('/') else posixpath.normpath('word/' + tgt)
                if p not in parts: raise BadDocx('relationship %s to missing part %s' % (rid, p))
                out[rid] = ('part:' + _h(parts[p])) if '/media/' in p else 'part:' + tgt
    return out


def fragments(path_or_parts):
    """-> list of canonical strings, one per section. Raises BadDocx."""
    parts = path_or_parts if isinstance(path_or_parts, dict) else read(path_or_parts)
    for need in ('[Content_Types].xml', '_rels/.rels', 'word/document.xml'):
        if need not in parts: raise BadDocx('missing part ' + need)
    try:
        for n, b in parts.items():
            if n.endswith('.xml') or n.endswith('.rels'): etree.fromstring(b)
        root = etree.fromstring(parts['word/document.xml'])
    except etree.XMLSyntaxError as e:
        raise BadDocx('XML: %s' % e)
    rels = _rels(parts)
    body = root.find('{%s}body' % W)
    if body is None: raise BadDocx('no body')
    for el in body.iter():
        if not isinstance(el.tag, str): continue
        for k in list(el.attrib):
            if k.startswith('{%s}' % R):
                rid = el.get(k)
                if rid not in rels: raise BadDocx('dangling relationship ' + rid)
                el.set(k, rels[rid])
        if el.tag in ('{%s}docPr' % WP, '{%s}cNvPr' % PIC):
            for k in ('id', 'name'):
                if k in el.attrib: el.set(k, '-')
    secs, cur = [], []
    for child in list(body):
        if child.tag == '{%s}sectPr' % W:
            secs.append((cur, child)); cur = []
            continue
        sp = child.find('{%s}pPr/{%s}sectPr' % (W, W)) if child.tag == '{%s}p' % W else None
        if sp is not None:
            carrier_empty = len(child) == 1 and len(child[0]) == 1
            if not carrier_empty:
                sp.getparent().remove(sp); cur.append(child)
            secs.append((cur, sp)); cur = []
        else:
            cur.append(child)
    if cur: raise BadDocx('content after the last section')
    out = []
    for content, sp in secs:
        # a page without any content: a bare empty paragraph besides the section mark shows nothing either
        if len(content) == 1 and content[0].tag == '{%s}p' % W and len(content[0]) == 0 and not content[0].attrib: content = []
        for t in sp.findall('{%s}type' % W): sp.remove(t)
        for k in list(sp.attrib):
            if 'rsid' in k: del sp.attrib[k]
        txt = [_c14n(sp)] + [_c14n(c) for c in content]
        out.append('\n'.join(txt))
    return out


def _c14n(el):
    return etree.tostring(el, method='c14n', exclusive=True).decode()


def styles(parts):
    """everything that is not the body nor the images: styles, settings, ..."""
    return {n: _h(b) for n, b in parts.items()
            if n not in ('word/document.xml', 'word/_rels/document.xml.rels', '[Content_Types].xml', 'docProps/core.xml')
            and '/media/' not in n}


def text_of(fragment):
    import re
    return ''.join(re.findall(r'<w:t[^>]*>([^<]*)</w:t>', fragment))


def media(parts):
    return sorted(_h(b) for n, b in parts.items() if '/media/' in n)
