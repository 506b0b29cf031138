// Generated by proof/tables/generate.py from proof/tables/data.py (TN5176, appendices A to C).
verus! {

pub mod tables {
    use vstd::prelude::*;

    pub open spec fn standard_string(id: int) -> &'static str {
        if id == 0 { ".notdef" }
        else if id == 1 { "space" }
        else if id == 2 { "exclam" }
        else if id == 3 { "quotedbl" }
        else if id == 4 { "numbersign" }
        else if id == 5 { "dollar" }
        else if id == 6 { "percent" }
        else if id == 7 { "ampersand" }
        else if id == 8 { "quoteright" }
        else if id == 9 { "parenleft" }
        else if id == 10 { "parenright" }
        else if id == 11 { "asterisk" }
        else if id == 12 { "plus" }
        else if id == 13 { "comma" }
        else if id == 14 { "hyphen" }
        else if id == 15 { "period" }
        else if id == 16 { "slash" }
        else if id == 17 { "zero" }
        else if id == 18 { "one" }
        else if id == 19 { "two" }
        else if id == 20 { "three" }
        else if id == 21 { "four" }
        else if id == 22 { "five" }
        else if id == 23 { "six" }
        else if id == 24 { "seven" }
        else if id == 25 { "eight" }
        else if id == 26 { "nine" }
        else if id == 27 { "colon" }
        else if id == 28 { "semicolon" }
        else if id == 29 { "less" }
        else if id == 30 { "equal" }
        else if id == 31 { "greater" }
        else if id == 32 { "question" }
        else if id == 33 { "at" }
        else if id == 34 { "A" }
        else if id == 35 { "B" }
        else if id == 36 { "C" }
        else if id == 37 { "D" }
        else if id == 38 { "E" }
        else if id == 39 { "F" }
        else if id == 40 { "G" }
        else if id == 41 { "H" }
        else if id == 42 { "I" }
        else if id == 43 { "J" }
        else if id == 44 { "K" }
        else if id == 45 { "L" }
        else if id == 46 { "M" }
        else if id == 47 { "N" }
        else if id == 48 { "O" }
        else if id == 49 { "P" }
        else if id == 50 { "Q" }
        else if id == 51 { "R" }
        else if id == 52 { "S" }
        else if id == 53 { "T" }
        else if id == 54 { "U" }
        else if id == 55 { "V" }
        else if id == 56 { "W" }
        else if id == 57 { "X" }
        else if id == 58 { "Y" }
        else if id == 59 { "Z" }
        else if id == 60 { "bracketleft" }
        else if id == 61 { "backslash" }
        else if id == 62 { "bracketright" }
        else if id == 63 { "asciicircum" }
        else if id == 64 { "underscore" }
        else if id == 65 { "quoteleft" }
        else if id == 66 { "a" }
        else if id == 67 { "b" }
        else if id == 68 { "c" }
        else if id == 69 { "d" }
        else if id == 70 { "e" }
        else if id == 71 { "f" }
        else if id == 72 { "g" }
        else if id == 73 { "h" }
        else if id == 74 { "i" }
        else if id == 75 { "j" }
        else if id == 76 { "k" }
        else if id == 77 { "l" }
        else if id == 78 { "m" }
        else if id == 79 { "n" }
        else if id == 80 { "o" }
        else if id == 81 { "p" }
        else if id == 82 { "q" }
        else if id == 83 { "r" }
        else if id == 84 { "s" }
        else if id == 85 { "t" }
        else if id == 86 { "u" }
        else if id == 87 { "v" }
        else if id == 88 { "w" }
        else if id == 89 { "x" }
        else if id == 90 { "y" }
        else if id == 91 { "z" }
        else if id == 92 { "braceleft" }
        else if id == 93 { "bar" }
        else if id == 94 { "braceright" }
        else if id == 95 { "asciitilde" }
        else if id == 96 { "exclamdown" }
        else if id == 97 { "cent" }
        else if id == 98 { "sterling" }
        else if id == 99 { "fraction" }
        else if id == 100 { "yen" }
        else if id == 101 { "florin" }
        else if id == 102 { "section" }
        else if id == 103 { "currency" }
        else if id == 104 { "quotesingle" }
        else if id == 105 { "quotedblleft" }
        else if id == 106 { "guillemotleft" }
        else if id == 107 { "guilsinglleft" }
        else if id == 108 { "guilsinglright" }
        else if id == 109 { "fi" }
        else if id == 110 { "fl" }
        else if id == 111 { "endash" }
        else if id == 112 { "dagger" }
        else if id == 113 { "daggerdbl" }
        else if id == 114 { "periodcentered" }
        else if id == 115 { "paragraph" }
        else if id == 116 { "bullet" }
        else if id == 117 { "quotesinglbase" }
        else if id == 118 { "quotedblbase" }
        else if id == 119 { "quotedblright" }
        else if id == 120 { "guillemotright" }
        else if id == 121 { "ellipsis" }
        else if id == 122 { "perthousand" }
        else if id == 123 { "questiondown" }
        else if id == 124 { "grave" }
        else if id == 125 { "acute" }
        else if id == 126 { "circumflex" }
        else if id == 127 { "tilde" }
        else if id == 128 { "macron" }
        else if id == 129 { "breve" }
        else if id == 130 { "dotaccent" }
        else if id == 131 { "dieresis" }
        else if id == 132 { "ring" }
        else if id == 133 { "cedilla" }
        else if id == 134 { "hungarumlaut" }
        else if id == 135 { "ogonek" }
        else if id == 136 { "caron" }
        else if id == 137 { "emdash" }
        else if id == 138 { "AE" }
        else if id == 139 { "ordfeminine" }
        else if id == 140 { "Lslash" }
        else if id == 141 { "Oslash" }
        else if id == 142 { "OE" }
        else if id == 143 { "ordmasculine" }
        else if id == 144 { "ae" }
        else if id == 145 { "dotlessi" }
        else if id == 146 { "lslash" }
        else if id == 147 { "oslash" }
        else if id == 148 { "oe" }
        else if id == 149 { "germandbls" }
        else if id == 150 { "onesuperior" }
        else if id == 151 { "logicalnot" }
        else if id == 152 { "mu" }
        else if id == 153 { "trademark" }
        else if id == 154 { "Eth" }
        else if id == 155 { "onehalf" }
        else if id == 156 { "plusminus" }
        else if id == 157 { "Thorn" }
        else if id == 158 { "onequarter" }
        else if id == 159 { "divide" }
        else if id == 160 { "brokenbar" }
        else if id == 161 { "degree" }
        else if id == 162 { "thorn" }
        else if id == 163 { "threequarters" }
        else if id == 164 { "twosuperior" }
        else if id == 165 { "registered" }
        else if id == 166 { "minus" }
        else if id == 167 { "eth" }
        else if id == 168 { "multiply" }
        else if id == 169 { "threesuperior" }
        else if id == 170 { "copyright" }
        else if id == 171 { "Aacute" }
        else if id == 172 { "Acircumflex" }
        else if id == 173 { "Adieresis" }
        else if id == 174 { "Agrave" }
        else if id == 175 { "Aring" }
        else if id == 176 { "Atilde" }
        else if id == 177 { "Ccedilla" }
        else if id == 178 { "Eacute" }
        else if id == 179 { "Ecircumflex" }
        else if id == 180 { "Edieresis" }
        else if id == 181 { "Egrave" }
        else if id == 182 { "Iacute" }
        else if id == 183 { "Icircumflex" }
        else if id == 184 { "Idieresis" }
        else if id == 185 { "Igrave" }
        else if id == 186 { "Ntilde" }
        else if id == 187 { "Oacute" }
        else if id == 188 { "Ocircumflex" }
        else if id == 189 { "Odieresis" }
        else if id == 190 { "Ograve" }
        else if id == 191 { "Otilde" }
        else if id == 192 { "Scaron" }
        else if id == 193 { "Uacute" }
        else if id == 194 { "Ucircumflex" }
        else if id == 195 { "Udieresis" }
        else if id == 196 { "Ugrave" }
        else if id == 197 { "Yacute" }
        else if id == 198 { "Ydieresis" }
        else if id == 199 { "Zcaron" }
        else if id == 200 { "aacute" }
        else if id == 201 { "acircumflex" }
        else if id == 202 { "adieresis" }
        else if id == 203 { "agrave" }
        else if id == 204 { "aring" }
        else if id == 205 { "atilde" }
        else if id == 206 { "ccedilla" }
        else if id == 207 { "eacute" }
        else if id == 208 { "ecircumflex" }
        else if id == 209 { "edieresis" }
        else if id == 210 { "egrave" }
        else if id == 211 { "iacute" }
        else if id == 212 { "icircumflex" }
        else if id == 213 { "idieresis" }
        else if id == 214 { "igrave" }
        else if id == 215 { "ntilde" }
        else if id == 216 { "oacute" }
        else if id == 217 { "ocircumflex" }
        else if id == 218 { "odieresis" }
        else if id == 219 { "ograve" }
        else if id == 220 { "otilde" }
        else if id == 221 { "scaron" }
        else if id == 222 { "uacute" }
        else if id == 223 { "ucircumflex" }
        else if id == 224 { "udieresis" }
        else if id == 225 { "ugrave" }
        else if id == 226 { "yacute" }
        else if id == 227 { "ydieresis" }
        else if id == 228 { "zcaron" }
        else if id == 229 { "exclamsmall" }
        else if id == 230 { "Hungarumlautsmall" }
        else if id == 231 { "dollaroldstyle" }
        else if id == 232 { "dollarsuperior" }
        else if id == 233 { "ampersandsmall" }
        else if id == 234 { "Acutesmall" }
        else if id == 235 { "parenleftsuperior" }
        else if id == 236 { "parenrightsuperior" }
        else if id == 237 { "twodotenleader" }
        else if id == 238 { "onedotenleader" }
        else if id == 239 { "zerooldstyle" }
        else if id == 240 { "oneoldstyle" }
        else if id == 241 { "twooldstyle" }
        else if id == 242 { "threeoldstyle" }
        else if id == 243 { "fouroldstyle" }
        else if id == 244 { "fiveoldstyle" }
        else if id == 245 { "sixoldstyle" }
        else if id == 246 { "sevenoldstyle" }
        else if id == 247 { "eightoldstyle" }
        else if id == 248 { "nineoldstyle" }
        else if id == 249 { "commasuperior" }
        else if id == 250 { "threequartersemdash" }
        else if id == 251 { "periodsuperior" }
        else if id == 252 { "questionsmall" }
        else if id == 253 { "asuperior" }
        else if id == 254 { "bsuperior" }
        else if id == 255 { "centsuperior" }
        else if id == 256 { "dsuperior" }
        else if id == 257 { "esuperior" }
        else if id == 258 { "isuperior" }
        else if id == 259 { "lsuperior" }
        else if id == 260 { "msuperior" }
        else if id == 261 { "nsuperior" }
        else if id == 262 { "osuperior" }
        else if id == 263 { "rsuperior" }
        else if id == 264 { "ssuperior" }
        else if id == 265 { "tsuperior" }
        else if id == 266 { "ff" }
        else if id == 267 { "ffi" }
        else if id == 268 { "ffl" }
        else if id == 269 { "parenleftinferior" }
        else if id == 270 { "parenrightinferior" }
        else if id == 271 { "Circumflexsmall" }
        else if id == 272 { "hyphensuperior" }
        else if id == 273 { "Gravesmall" }
        else if id == 274 { "Asmall" }
        else if id == 275 { "Bsmall" }
        else if id == 276 { "Csmall" }
        else if id == 277 { "Dsmall" }
        else if id == 278 { "Esmall" }
        else if id == 279 { "Fsmall" }
        else if id == 280 { "Gsmall" }
        else if id == 281 { "Hsmall" }
        else if id == 282 { "Ismall" }
        else if id == 283 { "Jsmall" }
        else if id == 284 { "Ksmall" }
        else if id == 285 { "Lsmall" }
        else if id == 286 { "Msmall" }
        else if id == 287 { "Nsmall" }
        else if id == 288 { "Osmall" }
        else if id == 289 { "Psmall" }
        else if id == 290 { "Qsmall" }
        else if id == 291 { "Rsmall" }
        else if id == 292 { "Ssmall" }
        else if id == 293 { "Tsmall" }
        else if id == 294 { "Usmall" }
        else if id == 295 { "Vsmall" }
        else if id == 296 { "Wsmall" }
        else if id == 297 { "Xsmall" }
        else if id == 298 { "Ysmall" }
        else if id == 299 { "Zsmall" }
        else if id == 300 { "colonmonetary" }
        else if id == 301 { "onefitted" }
        else if id == 302 { "rupiah" }
        else if id == 303 { "Tildesmall" }
        else if id == 304 { "exclamdownsmall" }
        else if id == 305 { "centoldstyle" }
        else if id == 306 { "Lslashsmall" }
        else if id == 307 { "Scaronsmall" }
        else if id == 308 { "Zcaronsmall" }
        else if id == 309 { "Dieresissmall" }
        else if id == 310 { "Brevesmall" }
        else if id == 311 { "Caronsmall" }
        else if id == 312 { "Dotaccentsmall" }
        else if id == 313 { "Macronsmall" }
        else if id == 314 { "figuredash" }
        else if id == 315 { "hypheninferior" }
        else if id == 316 { "Ogoneksmall" }
        else if id == 317 { "Ringsmall" }
        else if id == 318 { "Cedillasmall" }
        else if id == 319 { "questiondownsmall" }
        else if id == 320 { "oneeighth" }
        else if id == 321 { "threeeighths" }
        else if id == 322 { "fiveeighths" }
        else if id == 323 { "seveneighths" }
        else if id == 324 { "onethird" }
        else if id == 325 { "twothirds" }
        else if id == 326 { "zerosuperior" }
        else if id == 327 { "foursuperior" }
        else if id == 328 { "fivesuperior" }
        else if id == 329 { "sixsuperior" }
        else if id == 330 { "sevensuperior" }
        else if id == 331 { "eightsuperior" }
        else if id == 332 { "ninesuperior" }
        else if id == 333 { "zeroinferior" }
        else if id == 334 { "oneinferior" }
        else if id == 335 { "twoinferior" }
        else if id == 336 { "threeinferior" }
        else if id == 337 { "fourinferior" }
        else if id == 338 { "fiveinferior" }
        else if id == 339 { "sixinferior" }
        else if id == 340 { "seveninferior" }
        else if id == 341 { "eightinferior" }
        else if id == 342 { "nineinferior" }
        else if id == 343 { "centinferior" }
        else if id == 344 { "dollarinferior" }
        else if id == 345 { "periodinferior" }
        else if id == 346 { "commainferior" }
        else if id == 347 { "Agravesmall" }
        else if id == 348 { "Aacutesmall" }
        else if id == 349 { "Acircumflexsmall" }
        else if id == 350 { "Atildesmall" }
        else if id == 351 { "Adieresissmall" }
        else if id == 352 { "Aringsmall" }
        else if id == 353 { "AEsmall" }
        else if id == 354 { "Ccedillasmall" }
        else if id == 355 { "Egravesmall" }
        else if id == 356 { "Eacutesmall" }
        else if id == 357 { "Ecircumflexsmall" }
        else if id == 358 { "Edieresissmall" }
        else if id == 359 { "Igravesmall" }
        else if id == 360 { "Iacutesmall" }
        else if id == 361 { "Icircumflexsmall" }
        else if id == 362 { "Idieresissmall" }
        else if id == 363 { "Ethsmall" }
        else if id == 364 { "Ntildesmall" }
        else if id == 365 { "Ogravesmall" }
        else if id == 366 { "Oacutesmall" }
        else if id == 367 { "Ocircumflexsmall" }
        else if id == 368 { "Otildesmall" }
        else if id == 369 { "Odieresissmall" }
        else if id == 370 { "OEsmall" }
        else if id == 371 { "Oslashsmall" }
        else if id == 372 { "Ugravesmall" }
        else if id == 373 { "Uacutesmall" }
        else if id == 374 { "Ucircumflexsmall" }
        else if id == 375 { "Udieresissmall" }
        else if id == 376 { "Yacutesmall" }
        else if id == 377 { "Thornsmall" }
        else if id == 378 { "Ydieresissmall" }
        else if id == 379 { "001.000" }
        else if id == 380 { "001.001" }
        else if id == 381 { "001.002" }
        else if id == 382 { "001.003" }
        else if id == 383 { "Black" }
        else if id == 384 { "Bold" }
        else if id == 385 { "Book" }
        else if id == 386 { "Light" }
        else if id == 387 { "Medium" }
        else if id == 388 { "Regular" }
        else if id == 389 { "Roman" }
        else if id == 390 { "Semibold" }
        else { "" }
    }

    // The string identifier of a code from 0 to 255.
    pub open spec fn standard_encoding(code: int) -> int {
        if 0 <= code < 32 { 0 }
        else if 32 <= code < 127 { code - 31 }
        else if 127 <= code < 161 { 0 }
        else if 161 <= code < 176 { code - 65 }
        else if 176 <= code < 177 { 0 }
        else if 177 <= code < 181 { code - 66 }
        else if 181 <= code < 182 { 0 }
        else if 182 <= code < 190 { code - 67 }
        else if 190 <= code < 191 { 0 }
        else if 191 <= code < 192 { 123 }
        else if 192 <= code < 193 { 0 }
        else if 193 <= code < 201 { code - 69 }
        else if 201 <= code < 202 { 0 }
        else if 202 <= code < 204 { code - 70 }
        else if 204 <= code < 205 { 0 }
        else if 205 <= code < 209 { code - 71 }
        else if 209 <= code < 225 { 0 }
        else if 225 <= code < 226 { 138 }
        else if 226 <= code < 227 { 0 }
        else if 227 <= code < 228 { 139 }
        else if 228 <= code < 232 { 0 }
        else if 232 <= code < 236 { code - 92 }
        else if 236 <= code < 241 { 0 }
        else if 241 <= code < 242 { 144 }
        else if 242 <= code < 245 { 0 }
        else if 245 <= code < 246 { 145 }
        else if 246 <= code < 248 { 0 }
        else if 248 <= code < 252 { code - 102 }
        else if 252 <= code < 256 { 0 }
        else { 0 }
    }

    // The string identifier of a code from 0 to 255.
    pub open spec fn expert_encoding(code: int) -> int {
        if 0 <= code < 32 { 0 }
        else if 32 <= code < 33 { 1 }
        else if 33 <= code < 35 { code + 196 }
        else if 35 <= code < 36 { 0 }
        else if 36 <= code < 44 { code + 195 }
        else if 44 <= code < 47 { code - 31 }
        else if 47 <= code < 48 { 99 }
        else if 48 <= code < 58 { code + 191 }
        else if 58 <= code < 60 { code - 31 }
        else if 60 <= code < 64 { code + 189 }
        else if 64 <= code < 65 { 0 }
        else if 65 <= code < 70 { code + 188 }
        else if 70 <= code < 73 { 0 }
        else if 73 <= code < 74 { 258 }
        else if 74 <= code < 76 { 0 }
        else if 76 <= code < 80 { code + 183 }
        else if 80 <= code < 82 { 0 }
        else if 82 <= code < 85 { code + 181 }
        else if 85 <= code < 86 { 0 }
        else if 86 <= code < 87 { 266 }
        else if 87 <= code < 89 { code + 22 }
        else if 89 <= code < 92 { code + 178 }
        else if 92 <= code < 93 { 0 }
        else if 93 <= code < 127 { code + 177 }
        else if 127 <= code < 161 { 0 }
        else if 161 <= code < 164 { code + 143 }
        else if 164 <= code < 166 { 0 }
        else if 166 <= code < 171 { code + 141 }
        else if 171 <= code < 172 { 0 }
        else if 172 <= code < 173 { 312 }
        else if 173 <= code < 175 { 0 }
        else if 175 <= code < 176 { 313 }
        else if 176 <= code < 178 { 0 }
        else if 178 <= code < 180 { code + 136 }
        else if 180 <= code < 182 { 0 }
        else if 182 <= code < 185 { code + 134 }
        else if 185 <= code < 188 { 0 }
        else if 188 <= code < 189 { 158 }
        else if 189 <= code < 190 { 155 }
        else if 190 <= code < 191 { 163 }
        else if 191 <= code < 198 { code + 128 }
        else if 198 <= code < 200 { 0 }
        else if 200 <= code < 201 { 326 }
        else if 201 <= code < 202 { 150 }
        else if 202 <= code < 203 { 164 }
        else if 203 <= code < 204 { 169 }
        else if 204 <= code < 256 { code + 123 }
        else { 0 }
    }

    // The members of a predefined character set other than .notdef.
    pub open spec fn iso_adobe(id: int) -> bool {
        ||| 1 <= id <= 228
    }

    // The members of a predefined character set other than .notdef.
    pub open spec fn expert(id: int) -> bool {
        ||| id == 1
        ||| 13 <= id <= 15
        ||| 27 <= id <= 28
        ||| id == 99
        ||| 109 <= id <= 110
        ||| id == 150
        ||| id == 155
        ||| id == 158
        ||| 163 <= id <= 164
        ||| id == 169
        ||| 229 <= id <= 378
    }

    // The members of a predefined character set other than .notdef.
    pub open spec fn expert_subset(id: int) -> bool {
        ||| id == 1
        ||| 13 <= id <= 15
        ||| 27 <= id <= 28
        ||| id == 99
        ||| 109 <= id <= 110
        ||| id == 150
        ||| id == 155
        ||| id == 158
        ||| 163 <= id <= 164
        ||| id == 169
        ||| 231 <= id <= 232
        ||| 235 <= id <= 251
        ||| 253 <= id <= 270
        ||| id == 272
        ||| 300 <= id <= 302
        ||| id == 305
        ||| 314 <= id <= 315
        ||| 320 <= id <= 346
    }

}

} // verus!
