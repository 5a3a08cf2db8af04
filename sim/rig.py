"""Publishing document sets in the simulated world and loading them with
pyswagger through each of the ways it offers."""
import json
import posixpath
from urllib.parse import quote, unquote, urlparse

import yaml

from .world import HOOK_FAULTS, HOST

CHANNELS = ('file', 'fileurl', 'http', 'hook_file', 'hook_http', 'getter_class', 'getter_callback', 'resolver_getter', 'getter_arg', 'getter_dict')


def rename_refs(node, f):
    if isinstance(node, dict):
        return dict((k, f(v) if k == '$ref' and isinstance(v, str) else rename_refs(v, f)) for k, v in node.items())
    if isinstance(node, list):
        return [rename_refs(v, f) for v in node]
    return node


def intify(node, inside=False):
    """response codes as yaml authors write them: numbers"""
    if isinstance(node, dict):
        out = {}
        for k, v in node.items():
            if k == 'responses' and isinstance(v, dict) and 'operationId' in node:
                v = dict((int(s) if s.isdigit() else s, intify(r)) for s, r in v.items())
                out[k] = v
            else:
                out[k] = intify(v)
        return out
    if isinstance(node, list):
        return [intify(v) for v in node]
    return node


def encode(doc, fmt, indent=None):
    if fmt == 'json':
        return json.dumps(doc, ensure_ascii=False, indent=indent).encode('utf-8')
    if fmt == 'json-ascii':
        return json.dumps(doc, indent=1).encode('ascii')
    if fmt == 'yaml':
        return yaml.safe_dump(doc, allow_unicode=True, default_flow_style=False).encode('utf-8')
    if fmt == 'yaml-int':
        return yaml.safe_dump(intify(doc), allow_unicode=True, default_flow_style=False, width=60).encode('utf-8')
    if fmt == 'json-ws':
        return b'\r\n \n' + json.dumps(doc, indent='\t').encode('ascii')
    if fmt == 'json-bom':
        return b'\xef\xbb\xbf' + json.dumps(doc, ensure_ascii=False, indent=indent).encode('utf-8')
    if fmt == 'yaml-doc':
        return ('# a document\n--- # one\n%s...\n' % yaml.safe_dump(doc, allow_unicode=True, default_flow_style=False, width=200)).encode('utf-8')
    if fmt == 'yaml-flow':
        return ('\n' + yaml.safe_dump(doc, allow_unicode=False, default_flow_style=True)).encode('utf-8')
    raise ValueError(fmt)


FMTS = ('json', 'json-ascii', 'yaml', 'yaml-int') * 2 + ('json-ws', 'json-bom', 'yaml-doc', 'yaml-flow')
BASES = ('api', 'a/b', 'api', '', 'api', 'a/b', '', 'my api', u'caf\xe9', '100% api', 'a%20b/c')
PLAIN_JSON = ('json', 'json-ascii')


class Published(object):
    """one document set published at one place

    plan fields: channel, fmt, base (directory), ext ('json'|'yaml'), how
    references are spelled: refs ('rel'|'url'|'path'|'net'), quoted"""

    def __init__(self, world, docs, entry, d, v12=False):
        self.world = world
        self.channel = d.get('channel', 'http')
        self.fmt = d.get('fmt', 'json')
        self.base = d.get('base', 'api')
        # how it is written in urls
        self.qbase = quote(self.base)
        self.v12 = v12
        ext = d.get('ext', 'json')
        self.ext = ext
        self.names = {}
        for n in docs:
            # documents may have any extension, whatever is in them
            m = n
            if ext != 'json' and n.endswith('.json') and not (v12 and n != entry):
                m = n[:-5] + '.' + ext
            self.names[n] = m
        self.back = dict((v, k) for k, v in self.names.items())
        self.entry = self.names[entry]
        self.docs = docs
        self.d = d
        world.servers.append(self.server)
        self.set(docs)

    # urls
    @property
    def server(self):
        """where documents really are, for http"""
        return HOST + ':8080' * bool(self.d.get('port'))

    @property
    def publisher(self):
        """where documents seem to be, for getters and hooks"""
        return 'published.sim' + ':81' * bool(self.d.get('port'))

    @property
    def http_base(self):
        return 'http://%s/%s' % (self.server, self.qbase + '/' if self.base else '')

    @property
    def file_base(self):
        return '/simfs/%s' % (self.base + '/' if self.base else '')

    @property
    def base_url(self):
        """the location the application thinks it loads from"""
        c = self.channel
        if c in ('file', 'fileurl'):
            return 'file://' + quote(self.file_base)
        if c == 'http':
            return self.http_base
        return '%s://%s/%s' % (self.scheme, self.publisher, self.qbase + '/' if self.base else '')

    def bytes_of(self, name):
        doc = self.docs[name]
        if not self.v12:
            doc = rename_refs(doc, self._spell(name))
        return encode(doc, self.fmt)

    def _spell(self, name):
        """references as the authors of `name` write them"""
        style, quoted = self.d.get('refs', 'rel'), self.d.get('quoted')

        def f(r):
            i = r.find('#')
            path, jp = (r, '') if i < 0 else (r[:i], r[i:])
            if quoted:
                jp = '#' * bool(jp) + quote(jp[1:], safe="/~!$&'()*+,;=:@?")
            if not path:
                return jp
            t = posixpath.normpath(posixpath.join(posixpath.dirname(name), path))
            if t in self.names:
                if path.endswith('.json'):
                    path = path[:-5] + '.' + self.ext
                path = quote(path)
                if style == 'url':
                    path = self.base_url + quote(self.names[t])
                elif style == 'path':
                    path = urlparse(self.base_url).path + quote(self.names[t])
                elif style == 'net' and urlparse(self.base_url).netloc:
                    path = self.base_url[self.base_url.index(':') + 1:] + quote(self.names[t])
            return path + jp
        return f

    def set(self, docs, only=None):
        """publish (again)"""
        self.docs = docs
        w = self.world
        for n in docs:
            if only is not None and n not in only:
                continue
            data = self.bytes_of(n)
            st, k = self.key(n)
            if st is w.mem and self.d.get('as_dict') and self.fmt in PLAIN_JSON:
                data = json.loads(data.decode('utf-8'))
            st[k] = data

    def key(self, n):
        """where a document is published: (store, key)"""
        w, c, m = self.world, self.channel, self.names[n]
        hp = '/' + (self.base + '/' if self.base else '') + m
        if self.v12 and m != self.entry:
            hp = hp.rsplit('.', 1)[0] if c not in ('file', 'fileurl', 'hook_file') else hp
        if c in ('file', 'fileurl', 'hook_file'):
            return w.files, posixpath.normpath('/simfs' + hp)
        m = hp[len('/' + (self.base + '/' if self.base else '')):]
        if c in ('http', 'hook_http'):
            return w.urls, '/' + (self.qbase + '/' if self.base else '') + quote(m)
        return w.mem, self.base_url + quote(m)

    def remove(self, n):
        st, k = self.key(n)
        del st[k]

    def source(self, entry=None):
        """(url to load, keyword arguments of App.load, resolver keyword
        arguments) - fresh objects for every call"""
        from pyswagger import getter as pg
        c = self.channel
        w = self.world
        ent = self.names[entry] if entry else self.entry
        if c in ('file', 'fileurl') and self.d.get('how') == 'dir' and len(self.docs) == 1 and self.base:
            return '/simfs/' + self.base if c == 'file' else 'file:///simfs/' + self.qbase, {}, {}
        if c in ('file', 'fileurl') and self.d.get('how') == 'noext' and len(self.docs) == 1 and self.base and not self.v12:
            return (self.file_base if c == 'file' else self.base_url) + self.entry.rsplit('.', 1)[0], {}, {}
        if c == 'file':
            return self.file_base + ent, {}, {}
        if c in ('fileurl', 'http'):
            return self.base_url + quote(ent), {}, {}
        if c == 'hook_file':
            return self.base_url + quote(ent), {}, {'url_load_hook': self.hook(self.base_url, 'file:///simfs', quote(self.file_base)[len('/simfs'):])}
        if c == 'hook_http':
            h = 'http://' + self.server
            return self.base_url + quote(ent), {}, {'url_load_hook': self.hook(self.base_url, h, self.http_base[len(h):])}

        class MemGetter(pg.Getter):
            """a user's getter, made as the documentation says"""

            def __init__(self, path):
                pg.Getter.__init__(self, path)
                self.urls = [path]

            def load(self, path):
                return w.get_mem(path)

        class CbGetter(pg.SimpleGetter):
            __simple_getter_callback__ = lambda path: w.get_mem(path)

        class Documents(dict):
            def get(self, path, *default):
                return w.get_mem(path)

        k = CbGetter if c == 'getter_callback' else MemGetter
        kw = {}
        if c == 'getter_arg':
            kw['getter'] = MemGetter
        elif c == 'getter_dict':
            # made for one load: the urls in the order they are wanted
            urls = [self.base_url + quote(ent)]
            if self.v12:
                urls += [self.base_url + a['path'][1:] for a in self.docs[self.back[ent]]['apis']]
            kw['getter'] = pg.DictGetter(urls, Documents({'': None}))
        return self.base_url + quote(ent), kw, {'default_getter': k}

    def hook(self, b, host, path):
        """a url_load_hook; with mirrors, it changes its mind on where
        documents are"""
        w = self.world
        st = [0]
        mirrors = self.d.get('mirrors', 0)

        def hook(u):
            if not u.startswith(b):
                return u
            st[0] += 1
            if self.d.get('flaky_hook'):
                f = w.faults.next('hook:' + u, HOOK_FAULTS)
                if f:
                    raise IOError('injected: hook of ' + u)
            k = st[0] % (mirrors + 1)
            return host + ('/mirror%d' % k if k else '') + path + u[len(b):]
        return hook

    def resolver(self):
        from pyswagger.resolve import Resolver
        return Resolver(**self.source()[2])

    def load(self, resolver=None, prim=None, codec=None, entry=None, **k):
        """App.load without prepare"""
        from pyswagger import App
        url, kw, rkw = self.source(entry)
        kw.update(k)
        if resolver is not None:
            kw['resolver'] = resolver
        elif set(rkw) == set(['url_load_hook']) and not self.d.get('explicit_resolver'):
            kw.update(rkw)
        elif rkw:
            kw['resolver'] = self.resolver()
        if prim is not None:
            kw['prim'] = prim
        if codec is not None:
            kw['mime_codec'] = codec
        return App.load(url, **kw)

    def create(self, **k):
        strict = k.pop('strict', False)
        app = self.load(**k)
        app.prepare(strict=strict)
        return app

    # canonical locations
    def canon(self, ref):
        b = self.base_url
        i = ref.find('#')
        path, jp = (ref, '') if i < 0 else (ref[:i], ref[i:])
        if path + '/' == b or path == b + self.entry.rsplit('.', 1)[0]:
            path = self.entry
        elif path.startswith(b):
            path = unquote(path[len(b):])
        return self.back.get(path, path) + unquote(jp)

    def absolute(self, ref):
        """absolute url of a canonical reference 'doc.json#/x'"""
        i = ref.find('#')
        path, jp = (ref, '') if i < 0 else (ref[:i], ref[i:])
        return self.base_url + quote(self.names.get(path, path)) + jp

    @property
    def netloc(self):
        c = self.channel
        if c in ('file', 'fileurl'):
            return ''
        return self.server if c == 'http' else self.publisher

    @property
    def scheme(self):
        return 'file' if self.channel in ('file', 'fileurl') else 'https' if self.d.get('https') and self.channel != 'http' else 'http'


def publish(world, plan):
    """the API of a plan with calls"""
    a = plan.get('api12') or plan['api']
    return Published(world, a['docs'], a['entry'], plan['place'], bool(a.get('v12')))


def gen_place(rng, channels=CHANNELS, fmts=FMTS, v12=False, how=True, dict12=False):
    from .gen import pick, chance
    d = {'channel': pick(rng, channels), 'fmt': pick(rng, fmts), 'base': pick(rng, BASES)}
    if d['fmt'].startswith('yaml') and chance(rng, .5):
        d['ext'] = pick(rng, ['yaml', 'yml'])
    if chance(rng, .4):
        d['as_dict'] = True
    if chance(rng, .3):
        d['explicit_resolver'] = True
    if not v12 and d['channel'].startswith('hook') and chance(rng, .5):
        d['mirrors'] = rng.randint(1, 3)
    if v12 and not dict12 and d['channel'] == 'getter_dict':
        d['channel'] = 'getter_arg'
    if chance(rng, .35):
        d['refs'] = pick(rng, ['url', 'path', 'net'])
    if chance(rng, .35):
        d['quoted'] = True
    if chance(rng, .3):
        d['port'] = True
    if chance(rng, .2):
        d['https'] = True
    if how and chance(rng, .25):
        d['how'] = pick(rng, ['dir', 'noext'])
    return d
