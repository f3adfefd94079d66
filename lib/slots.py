"""Every place of the language that can hold text of the author, with the characters that end or change it."""
# (name, document with %s, characters that can't stand there, first version)
SLOTS = [
    ('para', 'w %s w', '', 101),
    ('bold', '[*%s]', '', 101), ('italic', "['%s]", '', 101), ('underline', '[_%s]', '', 101), ('strike', '[-%s]', '', 101),
    ('teletype', '[^%s]', '', 101), ('quote', '["%s]', '', 101), ('replaceable', '[~%s]', '', 101),
    ('simple', '*%s*', '*/=_ \n', 101), ('code', '`%s`', '`\n', 101), ('code2', '``%s``', '`\n', 105), ('role', '[role x %s]', '', 106),
    ('rolename', '[role %s text]', ' ', 107),
    ('footnote', 'w[footnote %s]', '', 101), ('h', '[h2 %s]', '', 101), ('heading', '[heading %s]', '', 101), ('section', '[section %s]\n\nt\n\n[endsect]', '', 101),
    ('section id', '[section:%s t]\n\nt\n\n[endsect]', None, 101),
    ('ulink url', '[@http://e/%s text]', ' \n', 101), ('ulink bare', '[@http://e/%s]', ' \n', 101), ('ulink text', '[@http://e/ %s]', '', 101),
    ('link', '[link %s text]', ' \n', 101), ('link bare', '[link %s]', ' \n', 101), ('link text', '[link a %s]', '', 101),
    ('funcref', '[funcref %s text]', ' \n', 101), ('classref', '[classref %s]', ' \n', 101), ('headerref', '[headerref %s x]', ' \n', 101),
    ('anchor', '[#%s] w', ' \n', 101),
    ('image', 'w [$%s.png] w', ' \n\\', 101), ('image width', 'w [$a.png [width %s]] w', '\n', 105), ('image alt', 'w [$a.png [alt %s]] w', '\n', 105),
    ('image attr', 'w [$a.png [align %s]] w', '\n', 105), ('svg', 'w [$%s.svg] w', ' \n\\', 106),
    ('cell', '[table t\n[[%s][a]]\n[[b][%s]]\n]', '', 101), ('table title', '[table %s\n[[a]]\n[[b]]\n]', '', 101), ('table id', '[table:%s t\n[[a]]\n[[b]]\n]', None, 105),
    ('term', '[variablelist t\n[[%s][a]]\n]', '', 101), ('vl def', '[variablelist t\n[[a][%s]]\n]', '', 101), ('vl title', '[variablelist %s\n[[a][b]]\n]', '', 101),
    ('item', '* %s\n* b', '', 101), ('num', '# %s\n# b', '', 101), ('nested item', '* a\n  * %s\n    # %s\n* b', '', 101),
    ('ordered', '[ordered_list [%s][a]]', '', 106), ('note', '[note %s]', '', 101), ('quoteblock', '[:%s]', '', 101), ('blurb', '[blurb %s]', '', 101),
    ('pre', '[pre\n%s\n]', '', 101), ('code block', 'p\n\n  int x; %s\n\np', '', 101), ('teletype block', '[teletype]\n\n  x %s\n\np', '', 105),
    ('python block', '[python]\n\n  x %s\n\np', '', 101), ('ticks block', '```\n%s\n```', '`', 106), ('cpp string', 'p\n\n  "%s"\n\np', '"\\', 101),
    ('cpp comment', 'p\n\n  /* %s */\n\np', '*', 101), ('python string', "[python]\n\n  '''%s'''\n\np", "'\\", 101), ('preprocessor', 'p\n\n  #define %s\n\np', '', 101),
    ('cpp char', "p\n\n  '%s'\n\np", "'\\", 101), ('code escape', 'p\n\n  x ``[*%s]`` y\n\np', '`', 101),
    ('macro value', '[def _mm_ %s]\n\n_mm_ x', '', 101), ('macro name', '[def %s text]\n\nx %s y', None, 101), ('template arg', '[template t[a] \\[x [a] y]\n\nw [t %s] w', '.', 105),
    ('template body', '[template t[] %s]\n\nw [t] w', '', 105), ('block template', '[template t[a]\n\n[a] %s\n]\n\n[t z]', '', 105),
    ('cond', '[? __none__ %s]x', '', 105), ('raw unicode', 'w \\u0026%s \\u003c w', '', 105), ('xinclude', '[xinclude %s.xml]', ' \n', 101),
    ('blockelem', '[block %s]', '', 106), ('br', 'a[br]%s', '', 106), ('tip', '[tip %s]', '', 101),
]
DOCINFO = [
    ('title', None, 101), ('purpose', '[purpose %s]', 101), ('license', '[license %s]', 101), ('authors', '[authors [%s, %s]]', 101), ('author', '[authors [x, %s]]', 101),
    ('copyright', '[copyright 2001 %s]', 101), ('version', '[version %s]', 101), ('category', '[category %s]', 101), ('dirname', '[dirname %s]', 101),
    ('last-revision', '[last-revision %s]', 101), ('lang', '[lang %s]', 106), ('biblioid', '[biblioid isbn %s]', 105), ('id', '[id %s]', 106),
    ('xmlbase', '[xmlbase %s]', 107),
]
