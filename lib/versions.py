"""What constructs mean in each language version.

Each probe has a source and, from the version given, what becomes of it: elements (ids that were not given are left out, white space
is folded), followed by || and the warnings, or ERR and the messages, each with its line in the probe.  @N stands for a number."""

PROBES = [
    ('bracket-in-bold', '[*a[z@N]b] c', [
        (100, '<para><emphasis role="bold">a[z@N</emphasis>b] c</para>'),
        (106, '<para><emphasis role="bold">a[z@N]b</emphasis> c</para>'),
    ]),
    ('table-id', '[table:tx@Ny Ti\n[[a]]\n]', [
        (100, '<table frame="all"><title>:tx@Ny Ti</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (105, '<table frame="all" id="tx@Ny"><title>Ti</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('table-id-space', '[table: tx@Ny Ti\n[[a]]\n]', [
        (100, '<table frame="all"><title>: tx@Ny Ti</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (105, '<table frame="all" id="tx@Ny"><title>Ti</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (107, '<table frame="all"><title>tx@Ny Ti</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table> || 1 warning: Empty id.'),
    ]),
    ('table-title', '[table [*b@N] & t\n[[a]]\n]', [
        (100, '<table frame="all"><title>[*b@N] & t</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (106, '<table frame="all"><title><emphasis role="bold">b@N</emphasis> & t</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('table-title-line', '[table Simple[[a]]\n[[b]]\n]', [
        (100, '<table frame="all"><title>Simple[[a]]</title><tgroup cols="1"><tbody><row><entry><para>b</para></entry></row></tbody></tgroup></table>'),
        (106, '<table frame="all"><title>Simple</title><tgroup cols="1"><thead><row><entry><para>a</para></entry></row></thead><tbody><row><entry><para>b</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('h2-id', '[h2:hx@Ny Title]', [
        (100, '<bridgehead renderas="sect2">:hx@Ny Title</bridgehead>'),
        (106, '<bridgehead id="hx@Ny" renderas="sect2">Title</bridgehead>'),
    ]),
    ('pre-space', '[pre\n\n  text@N\n]', [
        (100, '<programlisting>text@N </programlisting>'),
        (106, '<programlisting> text@N </programlisting>'),
    ]),
    ('arg-brackets', '[template ab@N[x y] <[x]|[y]>]\n[ab@N [*p..q]..r]', [
        (100, '<para><[*p|q>..r]</para>'),
        (105, '<para><<emphasis role="bold">p..q</emphasis>|r></para>'),
    ]),
    ('arg-brackets1', '[template ab@N[x y] <[x]|[y]>]\n[ab@N [*p q] r]', [
        (100, '<para><[*p|q] r></para>'),
        (105, '<para><<emphasis role="bold">p q</emphasis>|r></para>'),
    ]),
    ('arg-split', '[template as@N[x y z] <[x]|[y]|[z]>]\n[as@N p..q r]', [
        (100, '<para><p|q|r></para>'),
        (105, 'ERR 2 Invalid number of arguments passed. Expecting: 3 argument(s), got: 2 argument(s) instead.'),
    ]),
    ('arg-ws', '[template aw@N[x y] <[x]|[y]>]\n[aw@N p q r]', [
        (100, '<para><p|q r></para>'),
    ]),
    ('arg-escape', '[template ae@N[x y] <[x]|[y]>]\n[ae@N p\\..q..r]', [
        (100, 'ERR 2 Invalid number of arguments passed. Expecting: 2 argument(s), got: 3 argument(s) instead.'),
        (105, '<para><p..q|r></para>'),
    ]),
    ('image-attr', '[$img.png [width 3in] [alt al@N]]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png [width 3in"></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject> [alt al@N]]</para>'),
        (105, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png" width="3in"></imagedata></imageobject><textobject><phrase>al@N</phrase></textobject></inlinemediaobject></para>'),
    ]),
    ('image-alt', '[$img.png]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png"></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject></para>'),
        (106, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png"></imagedata></imageobject></inlinemediaobject></para>'),
    ]),
    ('image-escape', "[$im'''g'''.png]", [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="im\'\'\'g\'\'\'.png"></imagedata></imageobject><textobject><phrase>im\'\'\'g\'\'\'</phrase></textobject></inlinemediaobject></para>'),
        (106, 'ERR 1 Boostbook escape invalid here.'),
    ]),
    ('image-bslash', '[$d\\img.png]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="dimg.png"></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject></para> || 1 warning: Image path isn\'t portable: \'d\\img.png\''),
        (106, "ERR 1 Invalid escape.\n1 Image path isn't portable: 'd\\img.png'"),
    ]),
    ('link-escape', '[@http://x/a\\_b t@N]', [
        (100, '<para><ulink url="http://x/a\\_b">t@N</ulink></para>'),
        (106, '<para><ulink url="http://x/a_b">t@N</ulink></para>'),
    ]),
    ('link-raw', "[@http://x/'''a'''b t@N]", [
        (100, '<para><ulink url="http://x/\'\'\'a\'\'\'b">t@N</ulink></para>'),
        (106, 'ERR 1 Boostbook escape invalid here.'),
    ]),
    ('link-bracket', '[@http://x/\\[a\\] t@N]', [
        (100, '<para><ulink url="http://x/\\%5ba\\">http://x/\\%5ba\\</ulink> t@N]</para>'),
        (106, '<para><ulink url="http://x/%5ba%5d">t@N</ulink></para>'),
    ]),
    ('anchor-raw', "[#'''a'''x@Ny] t", [
        (100, '<para><anchor id="\'\'\'a\'\'\'x@Ny"></anchor>t</para>'),
        (106, 'ERR 1 Boostbook escape invalid here.'),
    ]),
    ('source-once', '[!python]`def f(x)` then `def f(x)`', [
        (100, '<para>[!python]<code><phrase role="identifier">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">(</phrase><phrase role="identifier">x</phrase><phrase role="special">)</phrase></code> then <code><phrase role="identifier">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">(</phrase><phrase role="identifier">x</phrase><phrase role="special">)</phrase></code></para>'),
        (107, '<para><code><phrase role="keyword">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">(</phrase><phrase role="identifier">x</phrase><phrase role="special">)</phrase></code> then <code><phrase role="identifier">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">(</phrase><phrase role="identifier">x</phrase><phrase role="special">)</phrase></code></para>'),
    ]),
    ('role', '[role r@N text]', [
        (100, '<para>[role r@N text]</para>'),
        (106, '<para><phrase role="r@N">text</phrase></para>'),
    ]),
    ('olist', '[ordered_list [a@N][b]]', [
        (100, '<para>[ordered_list [a@N][b]]</para>'),
        (106, '<orderedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b</simpara></listitem></orderedlist>'),
    ]),
    ('ilist', '[itemized_list [a@N][b]]', [
        (100, '<para>[itemized_list [a@N][b]]</para>'),
        (106, '<itemizedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b</simpara></listitem></itemizedlist>'),
    ]),
    ('block', "[block '''<simpara>x@N</simpara>''']", [
        (100, '<para>[block<simpara>x@N</simpara>]</para>'),
        (106, '<simpara>x@N</simpara>'),
    ]),
    ('cond-not', 'a [?! undef@N text] b', [
        (100, '<para>a b</para>'),
        (107, '<para>a text b</para>'),
    ]),
    ('cond-not2', 'a [?!undef@N text] b', [
        (100, '<para>a b</para>'),
        (107, '<para>a text b</para>'),
    ]),
    ('cond', 'a [? undef@N text] b', [
        (100, '<para>a b</para>'),
    ]),
    ('list-para', '* a@N\n\n  b', [
        (100, '<itemizedlist><listitem><simpara>a@N</simpara></listitem></itemizedlist><programlisting><phrase role="identifier">b</phrase> </programlisting>'),
        (106, "ERR 3 Paragraphs in lists aren't supported in quickbook 1.6."),
        (107, '<itemizedlist><listitem><simpara>a@N</simpara><simpara>b</simpara></listitem></itemizedlist>'),
    ]),
    ('list-plain', '* a@N\n* b', [
        (100, '<itemizedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b</simpara></listitem></itemizedlist>'),
    ]),
    ('list-in-note', '[note\n* a@N\n* b\n]', [
        (100, '<note><para>* a@N * b</para></note>'),
        (107, '<note><itemizedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b</simpara></listitem></itemizedlist></note>'),
    ]),
    ('list-in-cell', '[table T\n[[\n* a@N\n* b\n]]\n]', [
        (100, '<table frame="all"><title>T</title><tgroup cols="1"><tbody><row><entry><para>* a@N * b</para></entry></row></tbody></tgroup></table>'),
        (107, '<table frame="all"><title>T</title><tgroup cols="1"><tbody><row><entry><itemizedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b</simpara></listitem></itemizedlist></entry></row></tbody></tgroup></table>'),
    ]),
    ('code-in-note', '[note\n\n    code@N\n\ntext]', [
        (100, '<note><para>code@N</para><para>text</para></note>'),
    ]),
    ('phrase-template-block', '[template ptb@N[] [blurb x@N]]\n\np [ptb@N] q', [
        (100, '<para>p [blurb x@N] q</para>'),
        (107, '<para>p</para><sidebar role="blurb"><para>x@N</para></sidebar><para>q</para>'),
    ]),
    ('phrase-template-block1', '[template ptb@N[] [blurb x@N]]\n\n[ptb@N]', [
        (100, '<para>[blurb x@N]</para>'),
        (107, '<sidebar role="blurb"><para>x@N</para></sidebar>'),
    ]),
    ('callout', '    int x@N; /*< c@N >*/\n', [
        (100, '<programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x@N</phrase><phrase role="special">;</phrase> <phrase role="comment">/*< c@N >*/</phrase> </programlisting>'),
        (107, '<programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x@N</phrase><phrase role="special">;</phrase> <co linkends=""></co> </programlisting><calloutlist><callout arearefs=""><para>c@N</para></callout></calloutlist>'),
    ]),
    ('callout-off', '[teletype]\n\n    int x@N; /*< c@N >*/\n\n[c++]', [
        (100, '<programlisting>int x@N; /*< c@N >*/ </programlisting>'),
    ]),
    ('inline-block', 'a ``code@N`` b', [
        (100, '<para>a <programlisting><phrase role="identifier">code@N</phrase></programlisting> b</para>'),
        (106, '<para>a</para><programlisting><phrase role="identifier">code@N</phrase></programlisting><para>b</para>'),
    ]),
    ('inline-block2', 'a\n``\ncode@N\n``\nb', [
        (100, '<para>a <programlisting><phrase role="identifier">code@N</phrase> </programlisting> b</para>'),
        (106, '<para>a</para><programlisting><phrase role="identifier">code@N</phrase> </programlisting><para>b</para>'),
    ]),
    ('inline-tick', 'a `code@N` b', [
        (100, '<para>a <code><phrase role="identifier">code@N</phrase></code> b</para>'),
    ]),
    ('macro-redef', '[def mr@N one][def mr@N two] mr@N', [
        (100, '<para>one</para>'),
        (106, '<para>two</para>'),
    ]),
    ('static-scope', '[template in@N[] v]\n[template q@N[] <[in@N]>]\n[template r@N[in@N] [q@N]]\n[r@N dyn]', [
        (100, '<para><dyn></para>'),
        (105, '<para>< v></para>'),
    ]),
    ('static-arg', '[template q@N[] <[arg@N]>]\n[template arg@N[] outer]\n[template r@N[arg@N] [q@N]]\n[r@N dyn]', [
        (100, '<para><dyn></para>'),
        (105, '<para>< outer></para>'),
    ]),
    ('template-body-escape', '[template tb@N[] a\\]b]\n[tb@N]', [
        (100, '<para>b] a\\</para>'),
        (106, '<para>a]b</para>'),
    ]),
    ('template-escape-bracket', '[template tb@N[] a\\[b]\n[tb@N]', [
        (100, 'ERR 5 Syntax Error near column 1.'),
        (106, '<para>a[b</para>'),
    ]),
    ('stray-close', 'a z@N] b', [
        (100, '<para>a z@N] b</para>'),
        (106, 'ERR 1 Mismatched close bracket'),
    ]),
    ('stray-pair', 'a [z@N] b', [
        (100, '<para>a [z@N] b</para>'),
    ]),
    ('unknown-elem', 'a [zzz@N y] b', [
        (100, '<para>a [zzz@N y] b</para>'),
    ]),
    ('context', '[*a [table x [[b]]]]', [
        (100, '<para><emphasis role="bold">a [table x [[b</emphasis>]]]</para>'),
        (106, '<para><emphasis role="bold">a [table x [[b]]]</emphasis></para>'),
        (107, 'ERR 1 Element not allowed in this context.'),
    ]),
    ('context2', '[*a [blurb x]]', [
        (100, '<para><emphasis role="bold">a [blurb x</emphasis>]</para>'),
        (106, '<para><emphasis role="bold">a [blurb x]</emphasis></para>'),
        (107, 'ERR 1 Element not allowed in this context.'),
    ]),
    ('hr2', '----- a@N', [
        (100, '<para></para>'),
    ]),
    ('macro-id', '[def q@N\\b v]\nq@N\\b', [
        (100, '<para>v</para>'),
        (106, '<para>\\b v\\b</para>'),
    ]),
    ('punct-escape', '[template +@[] v]\n[`+]', [
        (100, '<para>@[] v</para>'),
        (106, "ERR 2 Templates with punctuation names can't be escaped in quickbook 1.6+"),
    ]),
    ('tick-template', '[template tt@N[x] [*b]]\n[`tt@N y]', [
        (100, 'ERR 2 Arguments for escaped template.'),
    ]),
    ('varlist', '[variablelist T@N\n[[a][b]]\n]', [
        (100, '<variablelist><title>T@N</title><varlistentry><term>a</term><listitem><para>b</para></listitem></varlistentry> </variablelist>'),
    ]),
    ('varlist-title-markup', '[variablelist [*T@N]\n[[a][b]]\n]', [
        (100, '<variablelist><title>[*T@N]</title><varlistentry><term>a</term><listitem><para>b</para></listitem></varlistentry> </variablelist>'),
    ]),
    ('quote', '["a@N] `c`', [
        (100, '<para><quote>a@N</quote> <code><phrase role="identifier">c</phrase></code></para>'),
    ]),
    ('unicode', '\\u00e9 \\U000000e9', [
        (100, '<para>é é</para>'),
    ]),
    ('comment-nest', 'a [/ x [y] ] b', [
        (100, '<para>a b</para>'),
    ]),
    ('macro-phrase', '[def mp@N [*b]] x mp@N', [
        (100, '<para>x <emphasis role="bold">b</emphasis></para>'),
    ]),
    ('strike', '[-a] [~b] [^c]', [
        (100, '<para><emphasis role="strikethrough">a</emphasis> <replaceable>b</replaceable> <literal>c</literal></para>'),
    ]),
    ('br', 'a[br]b', [
        (100, '<para>a<sbr></sbr> b</para> || 1 warning: line breaks generate invalid boostbook (will only note first occurrence).'),
    ]),
    ('section', '[section:sx@Ny T@N]\nx\n[endsect]', [
        (100, '<section id="sx@Ny"><title>T@N</title><para>x</para></section>'),
    ]),
    ('section-space', '[section: sx@Ny T@N]\nx\n[endsect]', [
        (100, '<section><title>sx@Ny T@N</title><para>x</para></section> || 1 warning: Empty id.'),
        (105, '<section id="sx@Ny"><title>T@N</title><para>x</para></section>'),
        (107, '<section><title>sx@Ny T@N</title><para>x</para></section> || 1 warning: Empty id.'),
    ]),
    ('endsect-id', '[section:sx@Ny T@N]\nx\n[endsect:sx@Ny]', [
        (100, '<section id="sx@Ny"><title>T@N</title><para>x</para></section>'),
    ]),
    ('id-template', '[template idt@N[] hx@Ny]\n\n[h2:[idt@N] Ti]', [
        (100, '<bridgehead renderas="sect2">: hx@Ny Ti</bridgehead>'),
        (106, '<bridgehead renderas="sect2">hx@Ny Ti</bridgehead> || 3 warning: Empty id.'),
        (107, '<bridgehead id="hx@Ny" renderas="sect2">Ti</bridgehead>'),
    ]),
    ('link-template', '[template lt@N[] zz@N]\n\n[@http://x/[lt@N] y]', [
        (100, '<para><ulink url="http://x/%5blt@N">http://x/%5blt@N</ulink> y]</para>'),
        (106, 'ERR 3 Open bracket in link value.'),
        (107, '<para><ulink url="http://x/zz@N">y</ulink></para>'),
    ]),
    ('role-template', '[template lt@N[] zz@N]\n\n[role [lt@N] y]', [
        (100, '<para>[role zz@N y]</para>'),
        (107, '<para><phrase role="zz@N">y</phrase></para>'),
    ]),
    ('anchor-template', '[template lt@N[] zx@Ny]\n\n[#[lt@N]] tt', [
        (100, '<para><anchor></anchor>] tt</para>'),
        (106, 'ERR 3 Mismatched close bracket'),
        (107, '<para><anchor id="zx@Ny"></anchor>tt</para>'),
    ]),
    ('heading-dash', '[h2 A & [*b]]', [
        (100, '<bridgehead renderas="sect2">A & <emphasis role="bold">b</emphasis></bridgehead>'),
    ]),
    ('list-in-var', '[variablelist T\n[[a][\n* x\n* y\n]]\n]', [
        (100, '<variablelist><title>T</title><varlistentry><term>a</term><listitem><para>* x * y</para></listitem></varlistentry> </variablelist>'),
        (107, '<variablelist><title>T</title><varlistentry><term>a</term><listitem><itemizedlist><listitem><simpara>x</simpara></listitem><listitem><simpara>y</simpara></listitem></itemizedlist></listitem></varlistentry> </variablelist>'),
    ]),
    ('template-block', '[template tbl@N[]\n\npara1\n\npara2\n]\n[tbl@N]', [
        (100, '<para>para1</para><para>para2</para>'),
    ]),
    ('phrase-para', '[template paras@N[] One.\n\nTwo.]\n\n[paras@N]', [
        (100, '<para>One. Two.</para>'),
        (107, 'ERR 1 Paragraph in phrase template.'),
    ]),
    ('cb', '[:a@N]', [
        (100, '<blockquote><para>a@N</para></blockquote>'),
    ]),
    ('cb-para', '[:a@N\n\nb]', [
        (100, '<blockquote><para>a@N</para><para>b</para></blockquote>'),
    ]),
    ('anchor-escape2', '[#a\\_x@Ny] tt', [
        (100, '<para><anchor id="a\\_x@Ny"></anchor>tt</para>'),
        (106, '<para><anchor id="a_x@Ny"></anchor>tt</para>'),
    ]),
    ('xinclude-template', '[template xt@N[] some]\n\n[xinclude [xt@N].xml]', [
        (100, '<xi:include href="%5bxt@N"></xi:include><para>.xml]</para>'),
        (106, 'ERR 3 Mismatched close bracket'),
        (107, '<xi:include href="some.xml"></xi:include>'),
    ]),
    ('source-block', '[!python]\n    def f\n\n    def g', [
        (100, '<para>[!python] def f</para><programlisting><phrase role="identifier">def</phrase> <phrase role="identifier">g</phrase> </programlisting>'),
        (107, '<programlisting><phrase role="keyword">def</phrase> <phrase role="identifier">f</phrase> <phrase role="keyword">def</phrase> <phrase role="identifier">g</phrase> </programlisting>'),
    ]),
    ('source-para', '[!python]\nUses `def` twice `def`.', [
        (100, '<para>[!python] Uses <code><phrase role="identifier">def</phrase></code> twice <code><phrase role="identifier">def</phrase></code>.</para>'),
        (107, '<para>Uses <code><phrase role="keyword">def</phrase></code> twice <code><phrase role="keyword">def</phrase></code>.</para>'),
    ]),
    ('source-table', '[!python][table T@N\n[[`def`]]\n]', [
        (100, '<para>[!python]</para><table frame="all"><title>T@N</title><tgroup cols="1"><tbody><row><entry><para><code><phrase role="identifier">def</phrase></code></para></entry></row></tbody></tgroup></table>'),
        (107, '<table frame="all"><title>T@N</title><tgroup cols="1"><tbody><row><entry><para><code><phrase role="keyword">def</phrase></code></para></entry></row></tbody></tgroup></table>'),
    ]),
    ('list-nested-code', '* a@N\n\n      code@N', [
        (100, '<itemizedlist><listitem><simpara>a@N</simpara></listitem></itemizedlist><programlisting><phrase role="identifier">code@N</phrase> </programlisting>'),
        (106, "ERR 3 Paragraphs in lists aren't supported in quickbook 1.6."),
        (107, '<itemizedlist><listitem><simpara>a@N</simpara><programlisting><phrase role="identifier">code@N</phrase> </programlisting></listitem></itemizedlist>'),
    ]),
    ('list-nested-block', '* a@N\n  [note x]', [
        (100, '<itemizedlist><listitem><simpara>a@N</simpara><note><para>x</para></note></listitem></itemizedlist>'),
    ]),
    ('cell-para', '[table T@N\n[[a\n\nb]]\n]', [
        (100, '<table frame="all"><title>T@N</title><tgroup cols="1"><tbody><row><entry><para>a</para><para>b</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('informal', '[table\n[[a@N][b]]\n]', [
        (100, '<informaltable frame="all"><tgroup cols="2"><tbody><row><entry><para>a@N</para></entry><entry><para>b</para></entry></row></tbody></tgroup></informaltable>'),
    ]),
    ('anchor-space', '[#a bx@Ny] tt', [
        (100, '<para><anchor id="a bx@Ny"></anchor>tt</para>'),
        (107, 'ERR 1 Syntax Error near column 5.\n1 Mismatched close bracket'),
    ]),
    ('memberref', '[memberref a::b\\_@N t]', [
        (100, '<para><methodname alt="a::b\\_@N">t</methodname></para>'),
        (106, '<para><methodname alt="a::b_@N">t</methodname></para>'),
    ]),
    ('tmpl-arg-newline', '[template an@N[x y] <[x]|[y]>]\n[an@N p\nq]', [
        (100, '<para><p|q></para>'),
    ]),
    ('tmpl-trailing-arg', '[template an@N[x y] <[x]|[y]>]\n[an@N p..]', [
        (100, '<para>[an@N p..]</para>'),
    ]),
    ('tmpl-default', '[template an@N[x] <[x]>]\n[an@N  p  ]', [
        (100, '<para><p ></para>'),
    ]),
    ('macro-arg', '[def ma@N [^m]]\n["ma@N] ma@N.', [
        (100, '<para><quote><literal>m</literal></quote> <literal>m</literal>.</para>'),
    ]),
    ('numbered', '# a@N\n# b\n  # c', [
        (100, '<orderedlist><listitem><simpara>a@N</simpara></listitem><listitem><simpara>b<orderedlist><listitem><simpara>c</simpara></listitem></orderedlist></simpara></listitem></orderedlist>'),
    ]),
    ('escape-para', "'''<para>e@N</para>'''", [
        (100, '<para><para>e@N</para></para>'),
    ]),
    ('blurb-list', '[blurb\n# a@N\n]', [
        (100, '<sidebar role="blurb"><para># a@N</para></sidebar>'),
        (107, '<sidebar role="blurb"><orderedlist><listitem><simpara>a@N</simpara></listitem></orderedlist></sidebar>'),
    ]),
    ('cell-list', '[table T@N\n[[a][\n* b@N\n]]\n]\n', [
        (100, '<table frame="all"><title>T@N</title><tgroup cols="2"><tbody><row><entry><para>a</para></entry><entry><para>* b@N</para></entry></row></tbody></tgroup></table>'),
        (107, '<table frame="all"><title>T@N</title><tgroup cols="2"><tbody><row><entry><para>a</para></entry><entry><itemizedlist><listitem><simpara>b@N</simpara></listitem></itemizedlist></entry></row></tbody></tgroup></table>'),
    ]),
    ('id-invalid', '[#a&x@Ny] t', [
        (100, '<para><anchor id="a&x@Ny"></anchor>t</para>'),
        (107, 'ERR 1 Invalid id: a&x@Ny'),
    ]),
    ('id-invalid-section', '[section:a&x@Ny T]\nx\n[endsect]', [
        (100, '<section><title>&x@Ny T</title><para>x</para></section>'),
        (107, 'ERR 1 Invalid id: a&x@Ny'),
    ]),
    ('id-ok', '[#a-b._x@Ny] t', [
        (100, '<para><anchor id="_x@Ny"></anchor>t</para>'),
    ]),
    ('heading-id', '[h2 Ax-b x@Ny]', [
        (100, '<bridgehead id="ax_b_x@Ny" renderas="sect2">Ax-b x@Ny</bridgehead>'),
    ]),
    ('heading-id-markup', '[h2 [*b] & x@Ny]', [
        (100, '<bridgehead id="_emphasis_role__bold__b__emphasis___amp__x@Ny" renderas="sect2"><emphasis role="bold">b</emphasis> & x@Ny</bridgehead>'),
        (106, '<bridgehead id="b_x@Ny" renderas="sect2"><emphasis role="bold">b</emphasis> & x@Ny</bridgehead>'),
    ]),
    ('heading-id-code', '[h2 `b` x@Ny]', [
        (100, '<bridgehead id="_code__phrase_role__identifier__b__phrase___code__x@Ny" renderas="sect2"><code><phrase role="identifier">b</phrase></code> x@Ny</bridgehead>'),
        (106, '<bridgehead id="b_x@Ny" renderas="sect2"><code><phrase role="identifier">b</phrase></code> x@Ny</bridgehead>'),
    ]),
    ('heading-generic', '[heading Gx-b x@Ny]', [
        (100, '<bridgehead id="gx_b_x@Ny" renderas="sect2">Gx-b x@Ny</bridgehead>'),
    ]),
    ('heading-twice', '[h2 Ax x@Ny]\n\n[h2 Ax x@Ny]', [
        (100, '<bridgehead id="ax_x@Ny" renderas="sect2">Ax x@Ny</bridgehead><bridgehead renderas="sect2">Ax x@Ny</bridgehead>'),
    ]),
    ('section-gen', '[section B&b x@Ny]\nx\n[endsect]', [
        (100, '<section id="b_b_x@Ny"><title>B&b x@Ny</title><para>x</para></section>'),
    ]),
    ('section-markup-gen', '[section [*B] x@Ny]\nx\n[endsect]', [
        (100, '<section id="__b__x@Ny"><title><emphasis role="bold">B</emphasis> x@Ny</title><para>x</para></section>'),
        (106, '<section id="b_x@Ny"><title><emphasis role="bold">B</emphasis> x@Ny</title><para>x</para></section>'),
    ]),
    ('table-gen', '[table Tt [*b] x@Ny\n[[a]]\n]', [
        (100, '<table frame="all"><title>Tt [*b] x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (105, '<table frame="all" id="tt___b__x@Ny"><title>Tt [*b] x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (106, '<table frame="all" id="tt_b_x@Ny"><title>Tt <emphasis role="bold">b</emphasis> x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('self-linked', '[section:sx@Ny SELF@N]\nx\n[endsect]', [
        (100, '<section id="sx@Ny"><title>SELF@N</title><para>x</para></section>'),
        (103, '<section id="sx@Ny"><title><link linkend="sx@Ny">SELF@N</link></title><para>x</para></section>'),
    ]),
    ('self-linked-h', '[h2:hx@Ny SELF@N]', [
        (100, '<bridgehead renderas="sect2">:hx@Ny SELF@N</bridgehead>'),
        (103, '<bridgehead renderas="sect2"><phrase></phrase><link linkend="_hx@Ny_self@N">:hx@Ny SELF@N</link></bridgehead>'),
        (106, '<bridgehead renderas="sect2"><phrase id="hx@Ny"></phrase><link linkend="hx@Ny">SELF@N</link></bridgehead>'),
    ]),
    ('xinclude-bslash', '[xinclude a\\b.xml]', [
        (100, '<xi:include href="a/b.xml"></xi:include> || 1 warning: Path isn\'t portable: \'a\\b.xml\''),
        (106, "ERR 1 Invalid escape.\n1 Path isn't portable: 'a\\b.xml'"),
        (107, 'ERR 1 Invalid escape.'),
    ]),
    ('xinclude-escape', '[xinclude a\\[b\\]c_@N.xml]', [
        (100, '<xi:include href="a/%5bb"></xi:include><para>c_@N.xml]</para> || 1 warning: Path isn\'t portable: \'a\\[b\\\''),
        (106, '<xi:include href="a%5bb%5dc_@N.xml"></xi:include>'),
        (107, 'ERR 1 Glob used for xml path.'),
    ]),
    ('include-source', '[include i.qbk]\n\n`def`\n%%%% i.qbk\n[python]\n`def`\n', [
        (100, '<para><code><phrase role="keyword">def</phrase></code></para><para><code><phrase role="keyword">def</phrase></code></para>'),
        (106, '<para><code><phrase role="keyword">def</phrase></code></para><para><code><phrase role="identifier">def</phrase></code></para>'),
    ]),
    ('include-source2', '[python]\n\n[include i.qbk]\n\n`def`\n%%%% i.qbk\n`def` [c++]\n', [
        (100, '<para><code><phrase role="keyword">def</phrase></code></para><para><code><phrase role="identifier">def</phrase></code></para>'),
        (106, '<para><code><phrase role="keyword">def</phrase></code></para><para><code><phrase role="keyword">def</phrase></code></para>'),
    ]),
    ('include-docinfo-source', '[python]\n\n[include i.qbk]\n\n`def`\n%%%% i.qbk\n[article I\n]\n\n`def`\n', [
        (100, '<para><code><phrase role="keyword">def</phrase></code></para><para><code><phrase role="keyword">def</phrase></code></para>'),
        (106, '<article><title>I</title><para><code><phrase role="identifier">def</phrase></code></para></article><para><code><phrase role="keyword">def</phrase></code></para> || i.qbk:4 warning: Quickbook version undefined. Version 1.1 is assumed'),
    ]),
    ('include-docinfo-source2', '[python]\n\n[include i.qbk]\n\n`def`\n%%%% i.qbk\n[article I\n[source-mode teletype]\n]\n\n`def`\n', [
        (100, '<para><code>def</code></para><para><code>def</code></para>'),
        (106, '<article><title>I</title><para><code>def</code></para></article><para><code><phrase role="keyword">def</phrase></code></para> || i.qbk:5 warning: Quickbook version undefined. Version 1.1 is assumed'),
    ]),
    ('include-template', '[include i.qbk]\n\n[it@N]\n%%%% i.qbk\n[template it@N[] v]\n', [
        (100, '<para>v</para>'),
        (106, '<para>[it@N]</para>'),
    ]),
    ('include-macro', '[include i.qbk]\n\nim@N\n%%%% i.qbk\n[def im@N v]\n', [
        (100, '<para>im@N</para>'),
    ]),
    ('include-macro-above', '[def im@N u]\n\n[include i.qbk]\n\nim@N\n%%%% i.qbk\nim@N [def im@N v] im@N\n', [
        (100, '<para>u</para><para>u</para><para>u</para>'),
        (106, '<para>u</para><para>v</para><para>u</para>'),
    ]),
    ('import-unclosed', '[import c.cpp]\n%%%% c.cpp\n//[sn@N\nint x;\n', [
        (100, " || c.cpp:1 warning: Unclosed snippet 'sn@N'"),
        (106, "ERR c.cpp:1 Unclosed snippet 'sn@N'"),
    ]),
    ('import-unopened', '[import c.cpp]\n%%%% c.cpp\nint x;\n//]\n', [
        (100, ' || c.cpp:2 warning: Mismatched end snippet.'),
        (106, 'ERR c.cpp:2 Mismatched end snippet.'),
    ]),
    ('import-nested', '[import c.cpp]\n\n[sn@N]\n%%%% c.cpp\n//[sn@N\nint x; /*< call >*/\n//]\n', [
        (100, '<para><programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> <co linkends=""></co> </programlisting></para><calloutlist><callout arearefs=""><para>call</para></callout></calloutlist>'),
        (106, '<programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> <co linkends=""></co> </programlisting><calloutlist><callout arearefs=""><para>call</para></callout></calloutlist>'),
    ]),
    ('import-inline', '[import c.cpp]\n\n[sn@N]\n%%%% c.cpp\n//[sn@N\n//` para\nint x;\n//]\n', [
        (100, '<para>para</para><para><programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> </programlisting></para>'),
        (106, '<para>para</para><programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> </programlisting>'),
    ]),
    ('import-qbk', '[import i.qbk]\n\n[it@N] im@N\n%%%% i.qbk\n[template it@N[] v]\n[def im@N w]\n', [
        (100, '<para>[it@N] im@N</para>'),
        (106, '<para>v w</para>'),
    ]),
    ('import-phrase', '[import c.cpp]\n\nsee [sn@N] and\n%%%% c.cpp\n//[sn@N\nint x;\n//]\n', [
        (100, '<para>see</para><para><programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> </programlisting></para><para>and</para>'),
        (106, '<para>see</para><programlisting><phrase role="keyword">int</phrase> <phrase role="identifier">x</phrase><phrase role="special">;</phrase> </programlisting><para>and</para>'),
    ]),
    ('include-cpp', '[include c.cpp]\n%%%% c.cpp\n//[sn@N\n/*`\ntext\n*/\nint x;\n//]\n', [
        (100, '<para>//[sn@N /*` text */ int x; //]</para>'),
        (106, ''),
    ]),
    ('include-id', '[include:ix@Ny i.qbk]\n%%%% i.qbk\n[article I\n]\n\n[h2 Hh]\n', [
        (100, '<bridgehead renderas="sect2">Hh</bridgehead>'),
        (106, '<article id="ix@Ny"><title>I</title><bridgehead renderas="sect2">Hh</bridgehead></article> || i.qbk:4 warning: Quickbook version undefined. Version 1.1 is assumed'),
    ]),
    ('include-section', '[include i.qbk]\n%%%% i.qbk\n[section:sx@Ny S]\nx\n[endsect]\n', [
        (100, '<section id="sx@Ny"><title>S</title><para>x</para></section>'),
    ]),
    ('include-docinfo', '[include i.qbk]\n%%%% i.qbk\n[article I\n[id ix@Ny]\n]\n\np\n', [
        (100, '<para>p</para>'),
        (106, '<article id="ix@Ny"><title>I</title><para>p</para></article> || i.qbk:5 warning: Quickbook version undefined. Version 1.1 is assumed'),
    ]),
    ('title-markup', '[table a [/ c] x@Ny\n[[a]]\n]', [
        (100, '<table frame="all"><title>a [/ c] x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (105, '<table frame="all" id="a____c__x@Ny"><title>a [/ c] x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
        (106, '<table frame="all" id="a_c_x@Ny"><title>a x@Ny</title><tgroup cols="1"><tbody><row><entry><para>a</para></entry></row></tbody></tgroup></table>'),
    ]),
    ('table-title-brackets', '[table a [x@Ny [[a]]\n[[b]]\n]', [
        (100, '<table frame="all"><title>a [x@Ny [[a]]</title><tgroup cols="1"><tbody><row><entry><para>b</para></entry></row></tbody></tgroup></table>'),
        (106, 'ERR 6 Syntax Error near column 1.'),
    ]),
    ('list-hr', '* a\n\n----', [
        (100, '<itemizedlist><listitem><simpara>a</simpara></listitem></itemizedlist><para></para>'),
    ]),
    ('list-blk', '* a\n[h2 B]\n* c', [
        (100, '<itemizedlist><listitem><simpara>a</simpara><bridgehead renderas="sect2">B</bridgehead></listitem><listitem><simpara>c</simpara></listitem></itemizedlist>'),
    ]),
    ('list-blk2', '* a\n  [table T\n  [[x]]\n  ]\n* c', [
        (100, '<itemizedlist><listitem><simpara>a</simpara><table frame="all"><title>T</title><tgroup cols="1"><tbody><row><entry><para>x</para></entry></row></tbody></tgroup></table></listitem><listitem><simpara>c</simpara></listitem></itemizedlist>'),
    ]),
    ('par-blk', 'a\n[note b]\nc', [
        (100, '<para>a</para><note><para>b</para></note><para>c</para>'),
    ]),
    ('par-blk2', 'a [note b] c', [
        (100, '<para>a</para><note><para>b</para></note><para>c</para>'),
    ]),
    ('attr-tmpl-nested', '[template lt@N[x] z[x]]\n\n[@http://x/[lt@N [*y]] y]', [
        (100, '<para><ulink url="http://x/%5blt@N"><emphasis role="bold">y</emphasis></ulink> y]</para>'),
        (106, 'ERR 3 Open bracket in link value.'),
        (107, 'ERR 3 Elements not allowed in attribute values.'),
    ]),
    ('attr-tmpl-arg', '[template lt@N[x] z[x]]\n\n[@http://x/[lt@N q] y]', [
        (100, '<para><ulink url="http://x/%5blt@N">q</ulink> y]</para>'),
        (106, 'ERR 3 Open bracket in link value.'),
        (107, '<para><ulink url="http://x/zq">y</ulink></para>'),
    ]),
    ('attr-elem', '[@http://x/[*b] y]', [
        (100, '<para><ulink url="http://x/%5b*b">http://x/%5b*b</ulink> y]</para>'),
        (106, 'ERR 1 Open bracket in link value.'),
        (107, 'ERR 1 Elements not allowed in attribute values.'),
    ]),
    ('attr-elem2', '[#[table]x@Ny] y', [
        (100, '<para><anchor></anchor>x@Ny] y</para>'),
        (106, 'ERR 1 Mismatched close bracket'),
        (107, 'ERR 1 Elements not allowed in attribute values.\n1 Invalid id: [table]x@Ny'),
    ]),
    ('attr-unknown', '[#[zzz]x@Ny] y', [
        (100, '<para><anchor></anchor>x@Ny] y</para>'),
        (106, 'ERR 1 Mismatched close bracket'),
        (107, 'ERR 1 Unmatched template in attribute value.\n1 Invalid id: [zzz]x@Ny'),
    ]),
    ('attr-raw', "[section:a'''b''' T]\nx\n[endsect]", [
        (100, '<section><title>b T</title><para>x</para></section>'),
        (107, 'ERR 1 Boostbook escape invalid here.'),
    ]),
    ('image-space', '[$img .png]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img .png"></imagedata></imageobject><textobject><phrase>img </phrase></textobject></inlinemediaobject></para>'),
        (106, '<para><inlinemediaobject><imageobject><imagedata fileref="img .png"></imagedata></imageobject></inlinemediaobject></para>'),
    ]),
    ('image-attr-space', '[$img.png  [width  3 in ]]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png [width 3 in "></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject>]</para>'),
        (105, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png" width="3 in "></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject></para>'),
        (106, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png" width="3 in "></imagedata></imageobject></inlinemediaobject></para>'),
    ]),
    ('image-attr-bracket', '[$img.png [alt a\\[b\\] [*c]]]', [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png [alt a[b"></imagedata></imageobject><textobject><phrase></phrase></textobject></inlinemediaobject> <emphasis role="bold">c</emphasis>]]</para> || 1 warning: Image path isn\'t portable: \'img.png [alt a\\[b\\\''),
        (105, '<para>[$img.png [alt a[b] <emphasis role="bold">c</emphasis>]]</para>'),
        (107, 'ERR 1 Syntax Error near column 3.\n1 Mismatched close bracket'),
    ]),
    ('image-attr-raw', "[$img.png [alt a'''b''']]", [
        (100, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png [alt a\'\'\'b\'\'\'"></imagedata></imageobject><textobject><phrase>img</phrase></textobject></inlinemediaobject>]</para>'),
        (105, '<para><inlinemediaobject><imageobject><imagedata fileref="img.png"></imagedata></imageobject><textobject><phrase>a\'\'\'b\'\'\'</phrase></textobject></inlinemediaobject></para>'),
        (106, 'ERR 1 Boostbook escape invalid here.'),
    ]),
    ('link-space', '[link a b\\] c]', [
        (100, '<para><link linkend="a">b] c</link></para>'),
    ]),
    ('link-comment', '[link a[/ x]b c]', [
        (100, '<para><link linkend="a">b c</link></para>'),
    ]),
    ('anchor-comment', '[#ax@Ny[/ c]] t', [
        (100, '<para><anchor></anchor>] t</para>'),
        (106, 'ERR 1 Mismatched close bracket'),
        (107, '<para><anchor id="ax@Ny"></anchor>t</para>'),
    ]),
    ('anchor-bracket', '[#a\\[x@Ny] t', [
        (100, '<para><anchor id="a\\[x@Ny"></anchor>t</para>'),
        (106, '<para><anchor id="a[x@Ny"></anchor>t</para>'),
        (107, 'ERR 1 Invalid id: a[x@Ny'),
    ]),
    ('role-punct', '[role a-b@N text]', [
        (100, '<para>[role a-b@N text]</para>'),
        (106, '<para><phrase role="a">-b@N text</phrase></para>'),
        (107, '<para><phrase role="a-b@N">text</phrase></para>'),
    ]),
    ('role-bracket', '[role a\\[b@N text]', [
        (100, '<para>[role a[b@N text]</para>'),
        (106, '<para><phrase role="a">[b@N text</phrase></para>'),
        (107, '<para><phrase role="a[b@N">text</phrase></para>'),
    ]),
    ('cond-punct', '[?a-b text]', [
        (100, ''),
    ]),
    ('cond-space', '[? undef text] y', [
        (100, '<para>y</para>'),
    ]),
    ('cond-nested', '[? undef [*a] ] [? __DATE__ [*b]] z', [
        (100, '<para><emphasis role="bold">b</emphasis> z</para>'),
    ]),
    ('recursive', '[include i.qbk]\n%%%% i.qbk\nx\n\n[include i.qbk]\n', [
        (100, 'ERR i.qbk:3 Infinite loop detected'),
    ]),
    ('include-bslash', '[include d\\i.qbk]\n%%%% d/i.qbk\nx\n', [
        (100, "<para>x</para> || 1 warning: Path isn't portable: 'd\\i.qbk'"),
        (106, "ERR 1 Invalid escape.\n1 Path isn't portable: 'd\\i.qbk'"),
        (107, 'ERR 1 Invalid escape.\n1 Unable to find file: di.qbk'),
    ]),
    ('include-glob', '[include i*.qbk]\n%%%% i1.qbk\nx\n%%%% i2.qbk\ny\n', [
        (100, 'ERR 1 Unable to find file: i*.qbk'),
        (107, '<para>x</para><para>y</para>'),
    ]),
    ('include-template-name', '[template n@N[] i1]\n\n[include [n@N].qbk]\n%%%% i1.qbk\nx\n', [
        (100, 'ERR 3 Unable to find file: [n@N'),
        (106, 'ERR 3 Unable to find file: [n@N\n3 Mismatched close bracket'),
        (107, '<para>x</para>'),
    ]),
    ('include-escape', "[include '''i1'''.qbk]\n%%%% i1.qbk\nx\n", [
        (100, "ERR 1 Unable to find file: '''i1'''.qbk"),
        (106, 'ERR 1 Boostbook escape invalid here.\n1 Unable to find file: .qbk'),
    ]),
    ('include-bracket', '[include i\\[1\\].qbk]\n%%%% i[1].qbk\nx\n', [
        (100, 'ERR 1 Unable to find file: i/[1/'),
        (106, '<para>x</para>'),
        (107, ''),
    ]),
    ('include-empty', '[include ]', [
        (100, 'ERR 1 Empty path argument'),
        (107, 'ERR 1 Syntax Error near column 11.'),
    ]),
    ('import-empty', '[import ]', [
        (100, 'ERR 1 Empty path argument'),
        (107, 'ERR 1 Syntax Error near column 10.'),
    ]),
    ('import-teletype', '[import c.py]\n\n[sn@N]\n%%%% c.py\n#[sn@N\ndef f()\n#]\n', [
        (100, '<para><programlisting><phrase role="keyword">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">()</phrase> </programlisting></para>'),
        (106, '<programlisting><phrase role="keyword">def</phrase> <phrase role="identifier">f</phrase><phrase role="special">()</phrase> </programlisting>'),
    ]),
    ('list-mix', '* a\n# b\n  * c\n# d', [
        (100, 'ERR 2 Illegal change of list style.\n4 Illegal change of list style.'),
    ]),
    ('list-code', '* a\n\n    code', [
        (100, '<itemizedlist><listitem><simpara>a</simpara></listitem></itemizedlist><programlisting><phrase role="identifier">code</phrase> </programlisting>'),
        (106, "ERR 3 Paragraphs in lists aren't supported in quickbook 1.6."),
        (107, '<itemizedlist><listitem><simpara>a</simpara><programlisting><phrase role="identifier">code</phrase> </programlisting></listitem></itemizedlist>'),
    ]),
    ('list-inner-template', '[template lt@N[] \n* x\n* y\n]\n\n* a [lt@N]\n* b', [
        (100, '<itemizedlist><listitem><simpara>a</simpara><simpara><itemizedlist><listitem><simpara>x</simpara></listitem><listitem><simpara>y</simpara></listitem></itemizedlist></simpara></listitem><listitem><simpara>b</simpara></listitem></itemizedlist>'),
    ]),
    ('footnote-par', 'a [footnote x\n\ny] b', [
        (100, '<para>a [footnote x</para><para>y] b</para>'),
        (106, 'ERR 1 Missing close bracket\n3 Mismatched close bracket'),
        (107, 'ERR 3 Syntax Error near column 1.\n3 Mismatched close bracket'),
    ]),
    ('blurb-h', '[blurb\n[h3 a]\n\nx\n]', [
        (100, '<sidebar role="blurb"><para>[h3 a</para></sidebar><para>x ]</para>'),
        (106, '<sidebar role="blurb"><para>[h3 a]</para><para>x</para></sidebar>'),
        (107, '<sidebar role="blurb"><bridgehead renderas="sect3">a</bridgehead><para>x</para></sidebar>'),
    ]),
    ('note-section', '[note\n[section a]\n\nx\n[endsect]\n]', [
        (100, 'ERR 5 Mismatched [endsect] near column 9.'),
        (106, '<note><para>[section a]</para><para>x [endsect]</para></note>'),
        (107, 'ERR 2 Element not allowed in this context.\n5 Element not allowed in this context.'),
    ]),
    ('def-block', '[def blk@Nz\n* a\n* b\n]\n\nblk@Nz', [
        (100, '<para>* a * b</para>'),
    ]),
    ('tmpl-def', '[template td@N[]\n[def dd@N v]\ndd@N\n]\n[td@N]\n\ndd@N', [
        (100, '<para>v</para><para>dd@N</para>'),
    ]),
    ('tmpl-tmpl', '[template td@N[] [template dd@N[] v][dd@N] ]\n[td@N] [dd@N]', [
        (100, '<para>[template dd@N[] v][dd@N] [dd@N]</para>'),
        (107, '<para>v [dd@N]</para>'),
    ]),
]
