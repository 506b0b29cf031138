"""Tables of TN5176 (appendices A, B and C), written down independently of the code."""
STANDARD_STRINGS = """.notdef space exclam quotedbl numbersign dollar percent ampersand quoteright
parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven
eight nine colon semicolon less equal greater question at A B C D E F G H I J K L M N O P Q R S T U
V W X Y Z bracketleft backslash bracketright asciicircum underscore quoteleft a b c d e f g h i j k
l m n o p q r s t u v w x y z braceleft bar braceright asciitilde exclamdown cent sterling fraction
yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi
fl endash dagger daggerdbl periodcentered paragraph bullet quotesinglbase quotedblbase quotedblright
guillemotright ellipsis perthousand questiondown grave acute circumflex tilde macron breve dotaccent
dieresis ring cedilla hungarumlaut ogonek caron emdash AE ordfeminine Lslash Oslash OE ordmasculine
ae dotlessi lslash oslash oe germandbls onesuperior logicalnot mu trademark Eth onehalf plusminus
Thorn onequarter divide brokenbar degree thorn threequarters twosuperior registered minus eth
multiply threesuperior copyright Aacute Acircumflex Adieresis Agrave Aring Atilde Ccedilla Eacute
Ecircumflex Edieresis Egrave Iacute Icircumflex Idieresis Igrave Ntilde Oacute Ocircumflex Odieresis
Ograve Otilde Scaron Uacute Ucircumflex Udieresis Ugrave Yacute Ydieresis Zcaron aacute acircumflex
adieresis agrave aring atilde ccedilla eacute ecircumflex edieresis egrave iacute icircumflex
idieresis igrave ntilde oacute ocircumflex odieresis ograve otilde scaron uacute ucircumflex
udieresis ugrave yacute ydieresis zcaron exclamsmall Hungarumlautsmall dollaroldstyle dollarsuperior
ampersandsmall Acutesmall parenleftsuperior parenrightsuperior twodotenleader onedotenleader
zerooldstyle oneoldstyle twooldstyle threeoldstyle fouroldstyle fiveoldstyle sixoldstyle
sevenoldstyle eightoldstyle nineoldstyle commasuperior threequartersemdash periodsuperior
questionsmall asuperior bsuperior centsuperior dsuperior esuperior isuperior lsuperior msuperior
nsuperior osuperior rsuperior ssuperior tsuperior ff ffi ffl parenleftinferior parenrightinferior
Circumflexsmall hyphensuperior Gravesmall Asmall Bsmall Csmall Dsmall Esmall Fsmall Gsmall Hsmall
Ismall Jsmall Ksmall Lsmall Msmall Nsmall Osmall Psmall Qsmall Rsmall Ssmall Tsmall Usmall Vsmall
Wsmall Xsmall Ysmall Zsmall colonmonetary onefitted rupiah Tildesmall exclamdownsmall centoldstyle
Lslashsmall Scaronsmall Zcaronsmall Dieresissmall Brevesmall Caronsmall Dotaccentsmall Macronsmall
figuredash hypheninferior Ogoneksmall Ringsmall Cedillasmall questiondownsmall oneeighth
threeeighths fiveeighths seveneighths onethird twothirds zerosuperior foursuperior fivesuperior
sixsuperior sevensuperior eightsuperior ninesuperior zeroinferior oneinferior twoinferior
threeinferior fourinferior fiveinferior sixinferior seveninferior eightinferior nineinferior
centinferior dollarinferior periodinferior commainferior Agravesmall Aacutesmall Acircumflexsmall
Atildesmall Adieresissmall Aringsmall AEsmall Ccedillasmall Egravesmall Eacutesmall
Ecircumflexsmall Edieresissmall Igravesmall Iacutesmall Icircumflexsmall Idieresissmall Ethsmall
Ntildesmall Ogravesmall Oacutesmall Ocircumflexsmall Otildesmall Odieresissmall OEsmall Oslashsmall
Ugravesmall Uacutesmall Ucircumflexsmall Udieresissmall Yacutesmall Thornsmall Ydieresissmall
001.000 001.001 001.002 001.003 Black Bold Book Light Medium Regular Roman Semibold""".split()
assert len(STANDARD_STRINGS) == 391, len(STANDARD_STRINGS)

STANDARD_ENCODING = [0] * 32 + list(range(1, 96)) + [0] * 34 + list(range(96, 111)) + [0] + \
    [111, 112, 113, 114, 0, 115, 116, 117, 118, 119, 120, 121, 122, 0, 123, 0] + \
    [124, 125, 126, 127, 128, 129, 130, 131, 0, 132, 133, 0, 134, 135, 136, 137] + \
    [0] * 15 + [0, 138, 0, 139, 0, 0, 0, 0, 140, 141, 142, 143, 0, 0, 0, 0] + \
    [0, 144, 0, 0, 0, 145, 0, 0, 146, 147, 148, 149, 0, 0, 0, 0]
assert len(STANDARD_ENCODING) == 256, len(STANDARD_ENCODING)

EXPERT_ENCODING = [0] * 32 + [1, 229, 230, 0, 231, 232, 233, 234, 235, 236, 237, 238, 13, 14, 15, 99,
    239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 27, 28, 249, 250, 251, 252,
    0, 253, 254, 255, 256, 257, 0, 0, 0, 258, 0, 0, 259, 260, 261, 262,
    0, 0, 263, 264, 265, 0, 266, 109, 110, 267, 268, 269, 0, 270, 271, 272,
    273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288,
    289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 0] + [0] * 32 + [
    0, 304, 305, 306, 0, 0, 307, 308, 309, 310, 311, 0, 312, 0, 0, 313,
    0, 0, 314, 315, 0, 0, 316, 317, 318, 0, 0, 0, 158, 155, 163, 319,
    320, 321, 322, 323, 324, 325, 0, 0, 326, 150, 164, 169, 327, 328, 329, 330,
    331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346] + \
    list(range(347, 379))
assert len(EXPERT_ENCODING) == 256, len(EXPERT_ENCODING)

# The predefined character sets, as sequences of string identifiers in glyph order.
ISO_ADOBE = list(range(0, 229))
EXPERT = [0, 1] + list(range(229, 239)) + [13, 14, 15, 99] + list(range(239, 249)) + [27, 28] + \
    list(range(249, 267)) + [109, 110] + list(range(267, 319)) + [158, 155, 163] + \
    list(range(319, 327)) + [150, 164, 169] + list(range(327, 379))
assert len(EXPERT) == 166, len(EXPERT)
EXPERT_SUBSET = [0, 1, 231, 232, 235, 236, 237, 238, 13, 14, 15, 99] + list(range(239, 249)) + \
    [27, 28, 249, 250, 251, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266,
     109, 110, 267, 268, 269, 270, 272, 300, 301, 302, 305, 314, 315, 158, 155, 163] + \
    list(range(320, 327)) + [150, 164, 169] + list(range(327, 347))
assert len(EXPERT_SUBSET) == 87, len(EXPERT_SUBSET)
