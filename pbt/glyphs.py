"""Reference tables for text in simple fonts: encodings from the PDF reference (checked against the cp1252 and mac_roman codecs) and
a part of the Adobe Glyph List (checked against the Unicode character names)."""

# StandardEncoding where it differs from ASCII
STANDARD = {c: chr(c) for c in range(32, 127)}
STANDARD.update({39: '\u2019', 96: '\u2018', 161: '\xa1', 162: '\xa2', 163: '\xa3', 164: '\u2044', 165: '\xa5', 166: '\u0192', 167: '\xa7', 168: '\xa4', 169: "'", 170: '\u201c', 171: '\xab', 172: '\u2039', 173: '\u203a', 174: '\ufb01', 175: '\ufb02', 177: '\u2013', 178: '\u2020', 179: '\u2021', 180: '\xb7', 182: '\xb6', 183: '\u2022', 184: '\u201a', 185: '\u201e', 186: '\u201d', 187: '\xbb', 188: '\u2026', 189: '\u2030', 191: '\xbf', 193: '`', 194: '\xb4', 195: '\u02c6', 196: '\u02dc', 197: '\xaf', 198: '\u02d8', 199: '\u02d9', 200: '\xa8', 202: '\u02da', 203: '\xb8', 205: '\u02dd', 206: '\u02db', 207: '\u02c7', 208: '\u2014', 225: '\xc6', 227: '\xaa', 232: '\u0141', 233: '\xd8', 234: '\u0152', 235: '\xba', 241: '\xe6', 245: '\u0131', 248: '\u0142', 249: '\xf8', 250: '\u0153', 251: '\xdf'})
WINANSI = {c: bytes([c]).decode("cp1252") for c in range(32, 256) if c not in (127, 129, 141, 143, 144, 157)}
WINANSI.update({c: "\u2022" for c in (127, 129, 141, 143, 144, 157)})     # unused codes are bullets
WINANSI.update({160: " ", 173: "-"})                                     # space and hyphen have a second code
MAC_ABSENT = (0x7f, 0xad, 0xb0, 0xb2, 0xb3, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbd, 0xc3, 0xc5, 0xc6, 0xd7, 0xf0)
MACROMAN = {c: bytes([c]).decode("mac_roman") for c in range(32, 256) if c not in MAC_ABSENT}
MACROMAN.update({0xca: " ", 0xdb: "\xa4"})
ENCODINGS = {"StandardEncoding": STANDARD, "WinAnsiEncoding": WINANSI, "MacRomanEncoding": MACROMAN}
LATIN = {
    'A': 'A', 'AE': '\xc6', 'Aacute': '\xc1', 'Acircumflex': '\xc2', 'Adieresis': '\xc4', 'Agrave': '\xc0', 'Aring': '\xc5', 'Atilde': '\xc3',
    'B': 'B', 'C': 'C', 'Ccedilla': '\xc7', 'D': 'D', 'E': 'E', 'Eacute': '\xc9', 'Ecircumflex': '\xca', 'Edieresis': '\xcb', 'Egrave': '\xc8',
    'Eth': '\xd0', 'Euro': '\u20ac', 'F': 'F', 'G': 'G', 'H': 'H', 'I': 'I', 'Iacute': '\xcd', 'Icircumflex': '\xce', 'Idieresis': '\xcf',
    'Igrave': '\xcc', 'J': 'J', 'K': 'K', 'L': 'L', 'Lslash': '\u0141', 'M': 'M', 'N': 'N', 'Ntilde': '\xd1', 'O': 'O', 'OE': '\u0152',
    'Oacute': '\xd3', 'Ocircumflex': '\xd4', 'Odieresis': '\xd6', 'Ograve': '\xd2', 'Oslash': '\xd8', 'Otilde': '\xd5', 'P': 'P', 'Q': 'Q', 'R': 'R',
    'S': 'S', 'Scaron': '\u0160', 'T': 'T', 'Thorn': '\xde', 'U': 'U', 'Uacute': '\xda', 'Ucircumflex': '\xdb', 'Udieresis': '\xdc', 'Ugrave': '\xd9',
    'V': 'V', 'W': 'W', 'X': 'X', 'Y': 'Y', 'Yacute': '\xdd', 'Ydieresis': '\u0178', 'Z': 'Z', 'Zcaron': '\u017d', 'a': 'a', 'aacute': '\xe1',
    'acircumflex': '\xe2', 'acute': '\xb4', 'adieresis': '\xe4', 'ae': '\xe6', 'agrave': '\xe0', 'ampersand': '&', 'aring': '\xe5',
    'asciicircum': '^', 'asciitilde': '~', 'asterisk': '*', 'at': '@', 'atilde': '\xe3', 'b': 'b', 'backslash': '\\', 'bar': '|', 'braceleft': '{',
    'braceright': '}', 'bracketleft': '[', 'bracketright': ']', 'breve': '\u02d8', 'brokenbar': '\xa6', 'bullet': '\u2022', 'c': 'c',
    'caron': '\u02c7', 'ccedilla': '\xe7', 'cedilla': '\xb8', 'cent': '\xa2', 'circumflex': '\u02c6', 'colon': ':', 'comma': ',', 'copyright': '\xa9',
    'currency': '\xa4', 'd': 'd', 'dagger': '\u2020', 'daggerdbl': '\u2021', 'degree': '\xb0', 'dieresis': '\xa8', 'divide': '\xf7', 'dollar': '$',
    'dotaccent': '\u02d9', 'dotlessi': '\u0131', 'e': 'e', 'eacute': '\xe9', 'ecircumflex': '\xea', 'edieresis': '\xeb', 'egrave': '\xe8',
    'eight': '8', 'ellipsis': '\u2026', 'emdash': '\u2014', 'endash': '\u2013', 'equal': '=', 'eth': '\xf0', 'exclam': '!', 'exclamdown': '\xa1',
    'f': 'f', 'fi': '\ufb01', 'five': '5', 'fl': '\ufb02', 'florin': '\u0192', 'four': '4', 'fraction': '\u2044', 'g': 'g', 'germandbls': '\xdf',
    'grave': '`', 'greater': '>', 'guillemotleft': '\xab', 'guillemotright': '\xbb', 'guilsinglleft': '\u2039', 'guilsinglright': '\u203a', 'h': 'h',
    'hungarumlaut': '\u02dd', 'hyphen': '-', 'i': 'i', 'iacute': '\xed', 'icircumflex': '\xee', 'idieresis': '\xef', 'igrave': '\xec', 'j': 'j',
    'k': 'k', 'l': 'l', 'less': '<', 'logicalnot': '\xac', 'lslash': '\u0142', 'm': 'm', 'macron': '\xaf', 'minus': '\u2212', 'mu': '\xb5',
    'multiply': '\xd7', 'n': 'n', 'nine': '9', 'ntilde': '\xf1', 'numbersign': '#', 'o': 'o', 'oacute': '\xf3', 'ocircumflex': '\xf4',
    'odieresis': '\xf6', 'oe': '\u0153', 'ogonek': '\u02db', 'ograve': '\xf2', 'one': '1', 'onehalf': '\xbd', 'onequarter': '\xbc',
    'onesuperior': '\xb9', 'ordfeminine': '\xaa', 'ordmasculine': '\xba', 'oslash': '\xf8', 'otilde': '\xf5', 'p': 'p', 'paragraph': '\xb6',
    'parenleft': '(', 'parenright': ')', 'percent': '%', 'period': '.', 'periodcentered': '\xb7', 'perthousand': '\u2030', 'plus': '+',
    'plusminus': '\xb1', 'q': 'q', 'question': '?', 'questiondown': '\xbf', 'quotedbl': '"', 'quotedblbase': '\u201e', 'quotedblleft': '\u201c',
    'quotedblright': '\u201d', 'quoteleft': '\u2018', 'quoteright': '\u2019', 'quotesinglbase': '\u201a', 'quotesingle': "'", 'r': 'r',
    'registered': '\xae', 'ring': '\u02da', 's': 's', 'scaron': '\u0161', 'section': '\xa7', 'semicolon': ';', 'seven': '7', 'six': '6', 'slash': '/',
    'space': ' ', 'sterling': '\xa3', 't': 't', 'thorn': '\xfe', 'three': '3', 'threequarters': '\xbe', 'threesuperior': '\xb3', 'tilde': '\u02dc',
    'trademark': '\u2122', 'two': '2', 'twosuperior': '\xb2', 'u': 'u', 'uacute': '\xfa', 'ucircumflex': '\xfb', 'udieresis': '\xfc',
    'ugrave': '\xf9', 'underscore': '_', 'v': 'v', 'w': 'w', 'x': 'x', 'y': 'y', 'yacute': '\xfd', 'ydieresis': '\xff', 'yen': '\xa5', 'z': 'z',
    'zcaron': '\u017e', 'zero': '0',
}
OTHER = {
    'AEacute': '\u01fc', 'Abreve': '\u0102', 'Acaron': '\u01cd', 'Adotbelow': '\u1ea0', 'Ainvertedbreve': '\u0202', 'Alphatonos': '\u0386',
    'Aogonek': '\u0104', 'Bdotbelow': '\u1e04', 'Beta': '\u0392', 'Blinebelow': '\u1e06', 'Cacute': '\u0106', 'Ccircumflex': '\u0108',
    'Chedescendercyrillic': '\u04b6', 'Chi': '\u03a7', 'DZ': '\u01f1', 'Dcaron': '\u010e', 'Dcircumflexbelow': '\u1e12', 'Decyrillic': '\u0414',
    'Dhook': '\u018a', 'Djecyrillic': '\u0402', 'Dtopbar': '\u018b', 'Dzcaron': '\u01c5', 'Dzhecyrillic': '\u040f', 'Ecaron': '\u011a',
    'Edotbelow': '\u1eb8', 'Ehookabove': '\u1eba', 'Elcyrillic': '\u041b', 'Emcyrillic': '\u041c', 'Endescendercyrillic': '\u04a2',
    'Enhookcyrillic': '\u04c7', 'Epsilon': '\u0395', 'Ercyrillic': '\u0420', 'Esdescendercyrillic': '\u04aa', 'Eta': '\u0397', 'Etilde': '\u1ebc',
    'Ezh': '\u01b7', 'Ezhreversed': '\u01b8', 'Fitacyrillic': '\u0472', 'Gamma': '\u0393', 'Gcaron': '\u01e6', 'Gcircumflex': '\u011c',
    'Ghestrokecyrillic': '\u0492', 'Ghook': '\u0193', 'Gmacron': '\u1e20', 'Hadescendercyrillic': '\u04b2', 'Hbrevebelow': '\u1e2a',
    'Hcircumflex': '\u0124', 'Ibreve': '\u012c', 'Idotbelow': '\u1eca', 'Iecyrillic': '\u0415', 'Iinvertedbreve': '\u020a',
    'Imacroncyrillic': '\u04e2', 'Iogonek': '\u012e', 'Iotatonos': '\u038a', 'Itilde': '\u0128', 'Izhitsacyrillic': '\u0474', 'Jecyrillic': '\u0408',
    'Kacyrillic': '\u041a', 'Kahookcyrillic': '\u04c3', 'Kastrokecyrillic': '\u049e', 'Kcaron': '\u01e8', 'Kdotbelow': '\u1e32',
    'Kjecyrillic': '\u040c', 'Koppacyrillic': '\u0480', 'Ksicyrillic': '\u046e', 'Lacute': '\u0139', 'Lcedilla': '\u013b', 'Ldotbelow': '\u1e36',
    'Ljecyrillic': '\u0409', 'Macute': '\u1e3e', 'Mu': '\u039c', 'Nacute': '\u0143', 'Ncedilla': '\u0145', 'Ndotbelow': '\u1e46',
    'Njecyrillic': '\u040a', 'Nu': '\u039d', 'Ocaron': '\u01d1', 'Odotbelow': '\u1ecc', 'Ohorn': '\u01a0', 'Oinvertedbreve': '\u020e',
    'Omegacyrillic': '\u0460', 'Omegatitlocyrillic': '\u047c', 'Omicron': '\u039f', 'Oogonek': '\u01ea', 'Pacute': '\u1e54',
    'Pemiddlehookcyrillic': '\u04a6', 'Phook': '\u01a4', 'Psi': '\u03a8', 'Racute': '\u0154', 'Rcedilla': '\u0156', 'Rho': '\u03a1',
    'Rlinebelow': '\u1e5e', 'Sampigreek': '\u03e0', 'Schwa': '\u018f', 'Scircumflex': '\u015c', 'Shacyrillic': '\u0428', 'Shhacyrillic': '\u04ba',
    'Softsigncyrillic': '\u042c', 'Tau': '\u03a4', 'Tcedilla': '\u0162', 'Tdotbelow': '\u1e6c', 'Tedescendercyrillic': '\u04ac', 'Thook': '\u01ac',
    'Tonefive': '\u01bc', 'Tonetwo': '\u01a7', 'Tsecyrillic': '\u0426', 'Ubreve': '\u016c', 'Ucircumflexbelow': '\u1e76', 'Udotbelow': '\u1ee4',
    'Uhorn': '\u01af', 'Ukcyrillic': '\u0478', 'Umacroncyrillic': '\u04ee', 'Upsilon': '\u03a5', 'Upsilontonos': '\u038e', 'Utildebelow': '\u1e74',
    'Vecyrillic': '\u0412', 'Vtilde': '\u1e7c', 'Wcircumflex': '\u0174', 'Wgrave': '\u1e80', 'Yatcyrillic': '\u0462', 'Ydotbelow': '\u1ef4',
    'Yhook': '\u01b3', 'Yicyrillic': '\u0407', 'Zacute': '\u0179', 'Zdotbelow': '\u1e92', 'Zedescendercyrillic': '\u0498',
    'Zhebrevecyrillic': '\u04c1', 'Zhedescendercyrillic': '\u0496', 'Zstroke': '\u01b5', 'abrevecyrillic': '\u04d1', 'acyrillic': '\u0430',
    'aeacute': '\u01fd', 'afii10017': '\u0410', 'afii10019': '\u0412', 'afii10021': '\u0414', 'afii10023': '\u0401', 'afii10025': '\u0417',
    'afii10027': '\u0419', 'afii10029': '\u041b', 'afii10031': '\u041d', 'afii10033': '\u041f', 'afii10035': '\u0421', 'afii10037': '\u0423',
    'afii10039': '\u0425', 'afii10041': '\u0427', 'afii10043': '\u0429', 'afii10045': '\u042b', 'afii10047': '\u042d', 'afii10049': '\u042f',
    'afii10051': '\u0402', 'afii10053': '\u0404', 'afii10055': '\u0406', 'afii10057': '\u0408', 'afii10059': '\u040a', 'afii10061': '\u040c',
    'afii10065': '\u0430', 'afii10067': '\u0432', 'afii10069': '\u0434', 'afii10071': '\u0451', 'afii10073': '\u0437', 'afii10075': '\u0439',
    'afii10077': '\u043b', 'afii10079': '\u043d', 'afii10081': '\u043f', 'afii10083': '\u0441', 'afii10085': '\u0443', 'afii10087': '\u0445',
    'afii10089': '\u0447', 'afii10091': '\u0449', 'afii10093': '\u044b', 'afii10095': '\u044d', 'afii10097': '\u044f', 'afii10099': '\u0452',
    'afii10101': '\u0454', 'afii10103': '\u0456', 'afii10105': '\u0458', 'afii10107': '\u045a', 'afii10109': '\u045c', 'afii10145': '\u040f',
    'afii10147': '\u0472', 'afii10193': '\u045f', 'afii10195': '\u0473', 'afii10846': '\u04d9', 'ainvertedbreve': '\u0203', 'alefhebrew': '\u05d0',
    'alefqamatshebrew': '\ufb2f', 'alphatonos': '\u03ac', 'anoteleia': '\u0387', 'arighthalfring': '\u1e9a', 'ayin': '\u05e2', 'bdotbelow': '\u1e05',
    'bet': '\u05d1', 'betasymbolgreek': '\u03d0', 'betdageshhebrew': '\ufb31', 'betrafehebrew': '\ufb4c', 'bilabialclick': '\u0298',
    'bstroke': '\u0180', 'cacute': '\u0107', 'ccircumflex': '\u0109', 'checyrillic': '\u0447', 'cheverticalstrokecyrillic': '\u04b9',
    'chook': '\u0188', 'daletdagesh': '\ufb33', 'dalethebrew': '\u05d3', 'dcedilla': '\u1e11', 'ddotbelow': '\u1e0d', 'delta': '\u03b4',
    'dialytikatonos': '\u0385', 'dlinebelow': '\u1e0f', 'dtopbar': '\u018c', 'dzcaron': '\u01c6', 'dzhecyrillic': '\u045f', 'ecaron': '\u011b',
    'edotbelow': '\u1eb9', 'ehookabove': '\u1ebb', 'elcyrillic': '\u043b', 'emcyrillic': '\u043c', 'endescendercyrillic': '\u04a3',
    'enhookcyrillic': '\u04c8', 'epsilon': '\u03b5', 'ercyrillic': '\u0440', 'esdescendercyrillic': '\u04ab', 'eshcurl': '\u0286',
    'etatonos': '\u03ae', 'etildebelow': '\u1e1b', 'ezhcaron': '\u01ef', 'ezhreversed': '\u01b9', 'finalkaf': '\u05da',
    'finalkafdageshhebrew': '\ufb3a', 'finalmem': '\u05dd', 'finalnun': '\u05df', 'finalpe': '\u05e3', 'finaltsadi': '\u05e5',
    'fitacyrillic': '\u0473', 'gamma': '\u03b3', 'gcaron': '\u01e7', 'gcircumflex': '\u011d', 'ghestrokecyrillic': '\u0493', 'ghook': '\u0260',
    'gimeldagesh': '\ufb32', 'gimelhebrew': '\u05d2', 'glottalstop': '\u0294', 'gmacron': '\u1e21', 'hadescendercyrillic': '\u04b3',
    'hbrevebelow': '\u1e2b', 'hcircumflex': '\u0125', 'he': '\u05d4', 'henghook': '\u0267', 'hethebrew': '\u05d7', 'hlinebelow': '\u1e96',
    'ibreve': '\u012d', 'idotbelow': '\u1ecb', 'iecyrillic': '\u0435', 'iinvertedbreve': '\u020b', 'imacroncyrillic': '\u04e3', 'iogonek': '\u012f',
    'iotalatin': '\u0269', 'istroke': '\u0268', 'itildebelow': '\u1e2d', 'jcaron': '\u01f0', 'jcrossedtail': '\u029d', 'kacute': '\u1e31',
    'kadescendercyrillic': '\u049b', 'kafdagesh': '\ufb3b', 'kafhebrew': '\u05db', 'kahookcyrillic': '\u04c4', 'kappasymbolgreek': '\u03f0',
    'kaverticalstrokecyrillic': '\u049d', 'kcedilla': '\u0137', 'khook': '\u0199', 'klinebelow': '\u1e35', 'ksicyrillic': '\u046f',
    'lambdastroke': '\u019b', 'lameddagesh': '\ufb3c', 'lamedhebrew': '\u05dc', 'lbelt': '\u026c', 'lcedilla': '\u013c', 'ldotbelow': '\u1e37',
    'lj': '\u01c9', 'llinebelow': '\u1e3b', 'longs': '\u017f', 'mdotbelow': '\u1e43', 'memdagesh': '\ufb3e', 'memhebrew': '\u05de',
    'mugreek': '\u03bc', 'ncaron': '\u0148', 'ncircumflexbelow': '\u1e4b', 'nj': '\u01cc', 'nlinebelow': '\u1e49', 'numeralsigngreek': '\u0374',
    'nundagesh': '\ufb40', 'nunhebrew': '\u05e0', 'ocaron': '\u01d2', 'odotbelow': '\u1ecd', 'ohorn': '\u01a1', 'oinvertedbreve': '\u020f',
    'omega': '\u03c9', 'omegatitlocyrillic': '\u047d', 'omicron': '\u03bf', 'oogonek': '\u01eb', 'pacute': '\u1e55', 'pe': '\u05e4',
    'pedagesh': '\ufb44', 'pehebrew': '\u05e4', 'perafehebrew': '\ufb4e', 'philatin': '\u0278', 'phook': '\u01a5', 'pisymbolgreek': '\u03d6',
    'psicyrillic': '\u0471', 'qof': '\u05e7', 'qofdageshhebrew': '\ufb47', 'racute': '\u0155', 'rcaron': '\u0159', 'rdotbelow': '\u1e5b',
    'reshdageshhebrew': '\ufb48', 'rfishhook': '\u027e', 'rhosymbolgreek': '\u03f1', 'rlinebelow': '\u1e5f', 'sacute': '\u015b',
    'samekhdagesh': '\ufb41', 'samekhhebrew': '\u05e1', 'schwa': '\u0259', 'schwahook': '\u025a', 'sdotbelow': '\u1e63', 'shchacyrillic': '\u0449',
    'shin': '\u05e9', 'shindageshhebrew': '\ufb49', 'shinshindot': '\ufb2a', 'shinsindot': '\ufb2b', 'shook': '\u0282', 'softsigncyrillic': '\u044c',
    'tav': '\u05ea', 'tavdageshhebrew': '\ufb4a', 'tcaron': '\u0165', 'tcircumflexbelow': '\u1e71', 'tecyrillic': '\u0442', 'tet': '\u05d8',
    'tetdageshhebrew': '\ufb38', 'theta': '\u03b8', 'thook': '\u01ad', 'tonefive': '\u01bd', 'tonetwo': '\u01a8', 'tretroflexhook': '\u0288',
    'tsadidagesh': '\ufb46', 'tsadihebrew': '\u05e6', 'tshecyrillic': '\u045b', 'ubar': '\u0289', 'ucaron': '\u01d4', 'ucyrillic': '\u0443',
    'uhookabove': '\u1ee7', 'uinvertedbreve': '\u0217', 'umacron': '\u016b', 'uogonek': '\u0173', 'upsilonlatin': '\u028a', 'utilde': '\u0169',
    'vav': '\u05d5', 'vavdageshhebrew': '\ufb35', 'vavholam': '\ufb4b', 'vdotbelow': '\u1e7f', 'vhook': '\u028b', 'wacute': '\u1e83',
    'wdotbelow': '\u1e89', 'wynn': '\u01bf', 'yatcyrillic': '\u0463', 'ydotbelow': '\u1ef5', 'yhook': '\u01b4', 'yicyrillic': '\u0457',
    'yoddagesh': '\ufb39', 'yodhebrew': '\u05d9', 'yr': '\u01a6', 'zacute': '\u017a', 'zayindagesh': '\ufb36', 'zayinhebrew': '\u05d6',
    'zcurl': '\u0291', 'zecyrillic': '\u0437', 'zeta': '\u03b6', 'zhecyrillic': '\u0436', 'zlinebelow': '\u1e95', 'zstroke': '\u01b6',
}
GLYPHS = dict(LATIN)
GLYPHS.update(OTHER)
