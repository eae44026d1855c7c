//! Template texts for the simulated worlds.
use crate::rng::Rng;

/// nothing to report in these
const CLEAN: &[&str] = &[
    "<p>@</p>\n",
    "<div class=\"a-@\">\n    <span>@</span>\n</div>\n",
    "{{ foo@ }}\n",
    "{% set v@ = 'x' %}\n",
    "{% if a@ and b %}\n    <b>@</b>\n{% endif %}\n",
    "{# plain comment @ #}\n",
    "<!-- html comment @ -->\n",
    "{{ name@|upper }}\n",
    "<textarea>\n  kept @\n      as is\n</textarea>\n",
    "<p>gr\u{fc}\u{df}e \u{1f980} @ \u{4e2d}\u{6587}</p>\n",
    "{% block only_@ %}{% endblock %}\n",
    "{% for item in items@ %}\n    {{ item }}\n{% endfor %}\n",
    "<img src=\"@.png\"/>\n",
    "{% verbatim %}{{ raw @ }}{% endverbatim %}\n",
];
/// reported, no automatic fix
const REPORT: &[&str] = &[
    "{{ foo|unknown_@ }}\n",
    "{{ nofunc_@(1) }}\n",
    "{% if a is odd_@ %}\n    x\n{% endif %}\n",
    "{% block camelCase@ %}{% endblock %}\n",
    "<div id=\"d@\"></div>\n<div id=\"d@\"></div>\n",
    "{% block dup_@ %}{% endblock %}\n\n{% block dup_@ %}{% endblock %}\n",
    "{% set my_snake_@ = 1 %}\n",
    "{% for my_key_@ in items %}\n    {{ my_key_@ }}\n{% endfor %}\n",
    "<div>\n    {# ludtwig-ignore-file #}\n    @\n</div>\n",
    "<div fooBar@=\"1\"></div>\n",
    "<p>\u{4e2d}\u{6587}\u{1f980} {{ x|no_@ }} \u{e9}</p>\n",
];
/// reported, with an automatic fix
const FIX: &[&str] = &[
    "<div>\n<p>@</p>\n</div>\n",
    "<div>\n      <p>@</p>\n  </div>\n",
    "{% if a == @ && b %}\n    x\n{% endif %}\n",
    "{% if a@ || b %}\n    x\n{% endif %}\n",
    "{% set v = \"s@\" %}\n",
    "<div class='c@'></div>\n",
    "{% set v = { 'k@': 42 } %}\n",
    "{% if a@ === 5 %}\n    x\n{% endif %}\n",
    "{% if a@ !== false %}\n    x\n{% endif %}\n",
    "{% extends 'base@.twig' %}\n",
    "{{ a@|json_encode|raw }}\n",
    "<p>@</p>\n   \n\t\n<p>x</p>\n",
    "<p>@</p>\r\n<p>crlf</p>\r\n",
    "<div>\n{% block b_@ %}<p>x</p>{% endblock %}\n</div>\n",
    "{% block o_@ %}\n{% block i_@ %}\n<p>@</p>\n{% endblock %}\n{% endblock %}\n",
    "<ul>\n\t<li>@</li>\n\t\t<li>{{ \"q\"|upper }}</li>\n</ul>\n",
    "<div class='\u{e9}@\u{1f980}' data-x='y'>\n<b>\u{4e2d}</b>\n</div>\n",
    "{% if x@ %}\n{% if y && z || w %}\n{{ \"a\" ~ \"b\" }}\n{% endif %}\n{% endif %}\n",
    "{% set h = { 'a@': \"b\", 'c': { 'd': 'e' } } %}\n",
    "<a href='{{ path(\"x@\") }}'>l</a>\n",
    "{{ a@|json_encode()|raw }}{{ b|json_encode|raw }}\n",
];
const SYNTAX: &[&str] = &[
    "{{ foo@ \n",
    "<div class=\"a@>\n",
    "{% if a@ %}\nno end\n",
    "</p@>\n",
    "{% block %}@{% endblock %}\n",
    "{{ a@ ~ }}\n",
    "{% unknowntag @ %}\n",
    "<div><span>@</div>\n",
    "{% set = @ %}\n",
    "{% for in x@ %}{% endfor %}\n",
    "{{ { 'a@': } }}\n",
    "<@\n",
    "{{ 'unclosed @ }}\n",
    "{% block a_@ %}{% endblock b %}\n",
    "%} }} #} @\n",
];
/// one of everything the grammar knows
const GRAMMAR: &[&str] = &[
    "{% if a@ %}\n    x\n{% elseif not b %}\n    y\n{% else %}\n    z\n{% endif %}\n",
    "{% set a@, b = 1, 'x' %}\n",
    "{% set c@ %}\n    <p>captured</p>\n{% endset %}\n",
    "{% for k, v in items@ if v %}\n    {{ k }}\n{% else %}\n    none\n{% endfor %}\n",
    "{% extends a@ ? 'x.twig' : 'y.twig' %}\n",
    "{% include 'x@.twig' ignore missing with { 'a': 1 } only %}\n",
    "{% include ['a@.twig', 'b.twig'] %}\n",
    "{% embed 'e@.twig' with { a: 1 } only %}\n    {% block in_@ %}\n        x\n    {% endblock %}\n{% endembed %}\n",
    "{% use 'blocks@.twig' with sidebar as base_@, title as t %}\n",
    "{% from 'forms@.twig' import input as i, textarea %}\n",
    "{% import 'forms@.twig' as forms %}\n",
    "{% apply upper|escape('html') %}\n    text @\n{% endapply %}\n",
    "{% apply replace('a', b = 'c')|join(', ', @ x) %}y{% endapply %}\n",
    "{% embed 'f@.twig' ignore missing %}{% endembed %}{% sw_include 'g@.twig' ignore missing only %}\n",
    "{% if a@ is same as 0 or b is not divisible by 3 or c is constant 'X' %}x{% endif %}\n",
    "{{ x@ is same as }}{{ y is divisible by }}{{ 'a #{ } b' }}{{ a. }}{{ b[] }}{{ c.d. }}\n",
    "{% autoescape 'js' %}\n    {{ x@ }}\n{% endautoescape %}\n",
    "{% deprecated 'gone @' %}\n",
    "{% do 1 + @ %}\n",
    "{% flush %}\n",
    "{% sandbox %}\n    {% include 'u@.twig' %}\n{% endsandbox %}\n",
    "{% verbatim %}\n    <a href='{{ @ }}'>{% if %}</a>\n{% endverbatim %}\n",
    "{% macro input@(name, value = '', type = \"text\") %}\n    <input name=\"{{ name }}\">\n{% endmacro input@ %}\n",
    "{% with { a: 42 } only %}\n    {{ a }}\n{% endwith %}\n",
    "{% cache 'key@' ttl(300) tags(['a', 'b']) %}\n    x\n{% endcache %}\n",
    "{% trans with {'%name%': 'F'} from 'app' into 'fr' %}hello %name% @{% endtrans %}\n",
    "{% trans %}Hello {{ name@ }}{% endtrans %}\n",
    "{% props icon = null, type = 'primary@' %}\n",
    "{% component Alert@ with { type: 'success' } %}\n    {% block content %}x{% endblock %}\n{% endcomponent %}\n",
    "{% component 'Alert@' %}x{% endcomponent %}\n",
    "{% block s_@ 'short' ~ x %}\n",
    "{% block p_@ %}\n    {{ parent() }}\n{% endblock p_@ %}\n",
    "{%- if a@ -%}\n    x\n{%~ endif ~%}\n",
    "{{- a@ -}}{{~ b ~}}\n{#- c -#}\n{#~ d ~#}\n",
    "{% sw_extends '@Storefront/x@.twig' %}\n",
    "{% sw_extends { template: '@Storefront/x@.twig', scopes: ['default', 'sub'] } %}\n",
    "{% sw_include \"@Storefront/y@.twig\" with { 'type': m.type, 'c': m.text} %}\n",
    "{% sw_silent_feature_call \"v6.5.@\" %}\n    {{ c.inc() }}\n{% endsw_silent_feature_call %}\n",
    "{% return %}\n{% return not cmp('=', 'f@', t) %}\n",
    "{% sw_icon 'minus@' style { 'size': 'xs', 'pack': \"solid\" } %}\n",
    "{% sw_icon 'clock@' %}\n",
    "{% sw_thumbnails 'p-@' with { media: product.cover.media, sizes: { 'xs': '1px' } } %}\n",
    "{% sw_embed '@x@.twig' %}\n    {% block k_@ %}\n        v\n    {% endblock %}\n{% sw_end_embed %}\n",
    "{% sw_use 'a@.twig' %}\n{% sw_import 'b.twig' as bb %}\n{% sw_from 'c.twig' import d as e %}\n",
    "{{ a@ ? b : c }}{{ a ?: b }}{{ a ? b }}{{ a ?? 'd' }}\n",
    "{{ 1 + 2 - 3 * 4 / 5 // 6 % 7 ** @ }}\n",
    "{{ -1 + (+2) - (3.5e+10) }}{{ 10E-3 }}\n",
    "{{ a@ b-and 1 b-or 2 b-xor 3 }}\n",
    "{{ a@ == 1 and b != 2 or c < 3 and d <= 4 or e > 5 and f >= 6 }}{{ a <=> b }}\n",
    "{{ a@ in [1, 2, 3] and b not in { 'x': 1 } }}{{ 1..5 }}{{ 'a'..'z' }}\n",
    "{{ a@ is defined and b is not empty and c is same as(d) and e is divisible by(3) and f is constant('X') }}\n",
    "{{ a@ is even or b is odd or c is iterable or d is null or e is none }}\n",
    "{{ a@ starts with 'x' or b ends with \"y\" or c matches '/^[a-z]+$/' }}\n",
    "{{ a@.b.c[0]['k'].d(1, x = 2, y: 3)|first|slice(1, 2)|default('x')|replace({'a': 'b'}) }}\n",
    "{{ items@|map(v => v * 2)|filter((v, k) => k > 1 and v)|reduce((c, v) => c + v, 0)|join(', ') }}\n",
    "{{ a@[1:2] }}{{ a[:2] }}{{ a[1:] }}{{ a.0.1 }}\n",
    "{{ \"x #{ a@ + 1 } y #{ b|upper } z\" }}\n",
    "{{ [1, 'two', [3, [4]], { a: b, (c): d, e, 'f': { g: h } }, ...rest@] }}\n",
    "{{ 'it\\'s @' ~ \"say \\\"x\\\"\" }}{{ '' }}{{ \"\" }}\n",
    "{{ true and TRUE or false xor none }}{{ null }}{{ NULL }}\n",
    "{{ max(1, 2, @) ~ min([1]) ~ range(0, 10, 2)|join ~ random(5) ~ date('now')|date('Y') ~ cycle(['a', 'b'], i) }}\n",
    "{{ include('t@.twig', { a: 1 }, with_context = false) }}{{ source('s.twig') }}{{ constant('X::Y') }}\n",
    "{{ func@() }}{{ (a + b) * c }}{{ not a }}{{ not (a and b) }}{{ _self.x@() }}\n",
    "<!DOCTYPE html>\n<html lang=\"en\">\n    <head>\n        <meta charset=\"utf-8\">\n        <title>@</title>\n    </head>\n    <body>\n        <br>\n        <hr/>\n    </body>\n</html>\n",
    "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://x@/strict.dtd\">\n",
    "<input disabled value=@ type=\"text\" {% if a %}checked{% endif %} {{ attrs }}>\n",
    "<div {% if a@ %}class=\"b\"{% else %}id=\"c\"{% endif %} {# c #} data-{{ n }}=\"v\" {{ x }}>\n    y\n</div>\n",
    "<div class=\"a {{ b@ }} {% if c %}d{% endif %} e\" style='color: {{ f }}'></div>\n",
    "<script>\n    var a = \"{{ b@ }}\"; if (a < 1 && b > 2) { alert('</p>'); }\n    // <div>\n</script>\n",
    "<script type=\"application/json\">{{ d@|json_encode|raw }}</script>\n",
    "<style>\n    .a@ > .b { color: {{ c }}; }\n</style>\n",
    "<pre>\n  a\n     b @\n</pre>\n",
    "<textarea>{{ v@ }}\n   x</textarea>\n",
    "<my-element@ :bind=\"x\" @click=\"y\" #ref v-if=\"a < b\"></my-element@>\n",
    "<twig:Alert@ type=\"x\" :msg=\"y\">\n    <twig:block name=\"content\">z</twig:block>\n</twig:Alert@>\n<twig:Icon:Small name=\"a\"/>\n",
    "<svg viewBox=\"0 0 1 1\"><path d=\"M0 0\"/></svg>\n",
    "<p>&amp; &#123; &#x1F; &nope & < > a@</p>\n",
    "<a href=x@>y</a><img src=\"{{ asset('i.png') }}\" alt=''>\n",
    "<ul>\n    {% for i in l@ %}\n        <li>\n            {{ i }}\n        </li>\n    {% endfor %}\n</ul>\n",
    "<!-- multi\n  line @\n  {{ twig }} -->\n{# multi\n line @ {{ x }} #}\n",
    "<table><tr><td>@<td>b</tr></table>\n",
    "<div\n    class=\"a@\"\n    id=\"i@\"\n>\n</div>\n",
    "<span>@</span> text <b>b</b>, {{ c }}! <i>d</i>\n",
    "{% if a@ %}<div>{% endif %}\n    x\n{% if a %}</div>{% endif %}\n",
    "{% block b_@ %}{% block c_@ %}{% block d_@ %}x{% endblock %}{% endblock %}{% endblock %}\n",
    "{% set a@ = b|merge({ 'x': [1, 2, { y: \"z\" }] }) %}{% set e = f ?? g ?: h %}\n",
    "{% if \"a@\" in b|keys and (c is defined && c) || d|length > 0 %}x{% endif %}\n",
    "{% for i in 0..10 %}{{ loop.index@ }}{% if not loop.last %}, {% endif %}{% endfor %}\n",
    "{# ludtwig-ignore #}\n{% set Bad@ = \"x\" %}\n<!-- ludtwig-ignore html-string-quotation -->\n<p class='x'></p>\n",
];
/// nothing but tokens
const TOKENS: &[&str] = &[
    "{%", "%}", "{{", "}}", "{#", "#}", "-%}", "~%}", "{%-", "{{~", "-}}", "<", ">", "/>", "</", "<!--", "-->", "<!", "DOCTYPE", "\"", "'", "`", "=", "==", "===", "!==", "!",
    "|", "||", "&", "&&", "&amp;", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "..", "...", "?", "??", "?:", "=>", "<=>", "+", "-", "*", "**", "/", "//", "%", "~", "#", "#{", "\\",
    "block", "endblock", "if", "elseif", "else", "endif", "for", "in", "endfor", "set", "endset", "extends", "include", "ignore missing", "with", "only", "embed", "endembed", "use", "from", "import", "as",
    "apply", "endapply", "autoescape", "endautoescape", "deprecated", "do", "flush", "sandbox", "endsandbox", "verbatim", "endverbatim", "macro", "endmacro", "endwith", "cache", "ttl", "tags", "endcache",
    "trans", "endtrans", "into", "component", "endcomponent", "props", "sw_extends", "sw_include", "sw_icon", "style", "sw_thumbnails", "sw_embed", "sw_end_embed", "sw_silent_feature_call",
    "endsw_silent_feature_call", "return", "not", "and", "or", "b-or", "is", "is not", "not in", "same as", "divisible by", "matches", "starts with", "true", "null", "none", "1", "2.5e+3", "name", "div", "p",
    "script", "style", "textarea", "pre", "twig:A", "ludtwig-ignore-file", "ludtwig-ignore", "indentation", " ", " ", " ", " ", "\n", "\n", "\r\n", "\t", "\u{e9}", "\u{feff}", "\u{2028}", "\0",
];
/// fixes that do not come to an end
const UNSETTLED: &[&str] = &["<p>@</p>\r\n<!-- ludtwig-ignore indentation, html-string-quotation -->\r\n{% block c@ %}{% endblock %}\r\n"];
const DIRECTIVE_TOP: &[&str] = &[
    "{# ludtwig-ignore-file #}\n",
    "<!-- ludtwig-ignore-file -->\n",
    "{# ludtwig-ignore-file indentation, twig-logic-and #}\n",
    "<!-- ludtwig-ignore-file html-string-quotation -->\n",
    "{# ludtwig-ignore-file twig-valid-filter, line-ending #}\n",
];
const DIRECTIVE: &[&str] = &[
    "{# ludtwig-ignore #}\n",
    "{# ludtwig-ignore twig-valid-filter #}\n",
    "<!-- ludtwig-ignore indentation, html-string-quotation -->\n",
    "{# ludtwig-ignore twig-logic-or, twig-logic-and #}\n",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Clean,
    Report,
    Fix,
    Mixed,
    Syntax,
    Big,
    Empty,
    BadUtf8,
    /// anything the grammar knows
    Wild,
}

fn put(rng: &mut Rng, out: &mut String, pool: &[&str], tag: &str) {
    let s = rng.pick(pool);
    out.push_str(&s.replace('@', tag));
}

pub fn template(rng: &mut Rng, kind: Kind, tag: &str) -> Vec<u8> {
    let mut s = String::new();
    let n = match kind {
        Kind::Empty => 0,
        Kind::Big => *rng.pick(&[40, 80, 150, 300]),
        _ => rng.range(1, 5),
    };
    if n > 0 && rng.pct(8) {
        put(rng, &mut s, DIRECTIVE_TOP, tag);
    }
    for i in 0..n {
        let t = format!("{tag}{i}");
        if rng.pct(6) {
            put(rng, &mut s, DIRECTIVE, &t);
        }
        let pool: &[&str] = match kind {
            Kind::Clean => CLEAN,
            Kind::Report => if i == 0 || rng.pct(50) { REPORT } else { CLEAN },
            Kind::Fix => if i == 0 || rng.pct(60) { FIX } else { CLEAN },
            Kind::Syntax => if i == 0 || rng.pct(30) { SYNTAX } else if rng.pct(50) { FIX } else { REPORT },
            Kind::Wild => if rng.pct(75) { GRAMMAR } else { FIX },
            _ => match rng.below(12) {
                10 | 11 => GRAMMAR,
                0..=1 => CLEAN,
                2..=4 => REPORT,
                5..=8 => FIX,
                _ => if rng.pct(25) { SYNTAX } else { FIX },
            },
        };
        put(rng, &mut s, pool, &t);
        if kind == Kind::Wild && rng.pct(30) {
            // one into another, at the end of a line
            let mut inner = String::new();
            put(rng, &mut inner, GRAMMAR, &format!("{t}n"));
            let ends: Vec<usize> = s.match_indices('\n').map(|(i, _)| i + 1).collect();
            if !ends.is_empty() {
                s.insert_str(*rng.pick(&ends), &inner);
            }
        }
    }
    if kind == Kind::Wild && rng.pct(12) {
        // and with no structure at all
        s.clear();
        for _ in 0..rng.range(1, 60) {
            s.push_str(rng.pick(TOKENS));
            if rng.pct(40) {
                s.push(' ');
            }
        }
    }
    if n > 0 && matches!(kind, Kind::Fix | Kind::Mixed) && rng.pct(2) {
        put(rng, &mut s, UNSETTLED, tag);
    }
    if n > 0 && kind != Kind::Clean {
        if rng.pct(8) {
            s.pop();
        }
        if rng.pct(4) {
            s = s.replace("\r\n", "\n").replace('\n', "\r\n");
        }
        if rng.pct(2) {
            s.insert(0, '\u{feff}');
        }
        if rng.pct(3) {
            s.insert(0, '\n');
        }
    }
    let mut v = s.into_bytes();
    if kind == Kind::BadUtf8 {
        let at = rng.below(v.len() + 1);
        let bad: &[u8] = *rng.pick(&[&[0xffu8][..], &[0xc3, 0x28], &[0x80], &[0xf0, 0x9f], &[0xed, 0xa0, 0x80]]);
        for (i, b) in bad.iter().enumerate() {
            v.insert(at + i, *b);
        }
        if std::str::from_utf8(&v).is_ok() {
            v.push(0xff);
        }
    }
    v
}

/// Make a template large: past the usual buffer sizes.
pub fn pad(rng: &mut Rng, v: &mut Vec<u8>) {
    let size = if rng.pct(4) { rng.range(1_040_000, 1_200_000) } else { *rng.pick(&[4000usize, 8100, 16_300, 33_000, 65_500, 66_000, 70_000, 132_000, 270_000]) };
    let mut t: Vec<u8> = Vec::with_capacity(size + 64);
    match rng.below(4) {
        // one line, which is printed with every finding in it
        0 => {
            t.extend(b"<div data-big='");
            t.resize(size.min(140_000), b'x');
            t.extend(b"'></div>\n");
        }
        1 => {
            t.extend(b"<!-- ");
            while t.len() < size {
                t.extend("\u{e9}\u{4e2d}".as_bytes());
            }
            t.extend(b" -->\n");
        }
        2 if size < 140_000 => {
            while t.len() < size {
                t.extend(b"<p>one of many lines</p>\n");
            }
        }
        _ => {
            t.extend(b"<!-- ");
            while t.len() < size {
                t.resize(t.len() + 79, b'p');
                t.push(b'\n');
            }
            t.extend(b"-->\n");
        }
    }
    if rng.pct(50) {
        if v.last() != Some(&b'\n') {
            v.push(b'\n');
        }
        v.extend(t);
    } else {
        t.extend(&*v);
        *v = t;
    }
}
pub fn any_kind(rng: &mut Rng) -> Kind {
    match rng.below(20) {
        0..=2 => Kind::Clean,
        3..=5 => Kind::Report,
        6..=11 => Kind::Fix,
        12..=15 => Kind::Mixed,
        16 => Kind::Syntax,
        17 => if rng.pct(50) { Kind::Syntax } else { Kind::Wild },
        18 => if rng.pct(50) { Kind::Empty } else { Kind::Wild },
        _ => if rng.pct(35) { Kind::Big } else { Kind::Mixed },
    }
}

/// Damage as a failing disk or an interrupted copy leaves it.
pub fn damage(rng: &mut Rng, v: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = v.to_vec();
    let n = v.len();
    if n == 0 {
        return (vec![0], "zeroed");
    }
    match rng.below(10) {
        9 => {
            // words or strings lost
            for _ in 0..rng.range(1, 3) {
                let mut i = rng.below(v.len().max(1));
                let end = |b: u8| matches!(b, b' ' | b'\n' | b'(' | b')' | b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b'%' | b',' | b'|');
                while i > 0 && !end(v[i - 1]) {
                    i -= 1;
                }
                let mut j = i;
                while j < v.len() && !end(v[j]) {
                    j += 1;
                }
                v.drain(i..j);
            }
            (v, "lost words")
        }
        8 => {
            // overwritten by a piece of something else
            let i = rng.below(n);
            let mut d = String::new();
            for _ in 0..rng.range(1, 4) {
                d.push_str(rng.pick(TOKENS));
            }
            let end = if rng.pct(50) { i } else { (i + d.len()).min(n) };
            v.splice(i..end, d.bytes());
            (v, "foreign data")
        }
        0 | 1 => {
            v.truncate(rng.below(n));
            (v, "cut off")
        }
        2 => {
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(n);
                v[i] ^= 1 << rng.below(8);
            }
            (v, "bit flip")
        }
        3 => {
            let i = rng.below(n);
            let m = rng.range(1, 16).min(n - i);
            for b in &mut v[i..i + m] {
                *b = 0;
            }
            (v, "zeroed range")
        }
        4 => {
            let i = rng.below(n);
            let m = rng.range(1, 40).min(n - i);
            v.drain(i..i + m);
            (v, "lost range")
        }
        5 => {
            let i = rng.below(n);
            let m = rng.range(1, 40).min(n - i);
            let d = v[i..i + m].to_vec();
            // seldom so often that it nests deeply
            let times = if rng.pct(8) { rng.range(10, 200).min(4000 / m) } else { rng.range(1, 3) };
            let d = d.repeat(times);
            v.splice(i..i, d);
            (v, "repeated range")
        }
        6 => {
            // two places exchanged, as reordered blocks do
            let a = rng.below(n);
            let b = rng.below(n);
            let m = rng.range(1, 24).min(n - a.max(b));
            for k in 0..m {
                v.swap(a + k, b + k);
            }
            (v, "exchanged ranges")
        }
        _ => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(n);
                v[i] = *rng.pick(b"{}%#<>'\"/= \n\r-|&\x00\x7f\xc3\xff");
            }
            (v, "overwritten byte")
        }
    }
}
