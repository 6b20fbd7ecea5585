// label, encoding; compared with the TextDecoder of node 22 (tools/mkenc.py notes in DESIGN.md)
static struct { char const* label; encoding_name name; } const ref_labels[] = {
	{ "unicode-1-1-utf-8", encoding_name::UTF_8 },
	{ "utf-8", encoding_name::UTF_8 },
	{ "utf8", encoding_name::UTF_8 },
	{ "866", encoding_name::IBM866 },
	{ "cp866", encoding_name::IBM866 },
	{ "csibm866", encoding_name::IBM866 },
	{ "ibm866", encoding_name::IBM866 },
	{ "csisolatin2", encoding_name::ISO_8859_2 },
	{ "iso-8859-2", encoding_name::ISO_8859_2 },
	{ "iso-ir-101", encoding_name::ISO_8859_2 },
	{ "iso8859-2", encoding_name::ISO_8859_2 },
	{ "iso88592", encoding_name::ISO_8859_2 },
	{ "iso_8859-2", encoding_name::ISO_8859_2 },
	{ "iso_8859-2:1987", encoding_name::ISO_8859_2 },
	{ "l2", encoding_name::ISO_8859_2 },
	{ "latin2", encoding_name::ISO_8859_2 },
	{ "csisolatin3", encoding_name::ISO_8859_3 },
	{ "iso-8859-3", encoding_name::ISO_8859_3 },
	{ "iso-ir-109", encoding_name::ISO_8859_3 },
	{ "iso8859-3", encoding_name::ISO_8859_3 },
	{ "iso88593", encoding_name::ISO_8859_3 },
	{ "iso_8859-3", encoding_name::ISO_8859_3 },
	{ "iso_8859-3:1988", encoding_name::ISO_8859_3 },
	{ "l3", encoding_name::ISO_8859_3 },
	{ "latin3", encoding_name::ISO_8859_3 },
	{ "csisolatin4", encoding_name::ISO_8859_4 },
	{ "iso-8859-4", encoding_name::ISO_8859_4 },
	{ "iso-ir-110", encoding_name::ISO_8859_4 },
	{ "iso8859-4", encoding_name::ISO_8859_4 },
	{ "iso88594", encoding_name::ISO_8859_4 },
	{ "iso_8859-4", encoding_name::ISO_8859_4 },
	{ "iso_8859-4:1988", encoding_name::ISO_8859_4 },
	{ "l4", encoding_name::ISO_8859_4 },
	{ "latin4", encoding_name::ISO_8859_4 },
	{ "csisolatincyrillic", encoding_name::ISO_8859_5 },
	{ "cyrillic", encoding_name::ISO_8859_5 },
	{ "iso-8859-5", encoding_name::ISO_8859_5 },
	{ "iso-ir-144", encoding_name::ISO_8859_5 },
	{ "iso8859-5", encoding_name::ISO_8859_5 },
	{ "iso88595", encoding_name::ISO_8859_5 },
	{ "iso_8859-5", encoding_name::ISO_8859_5 },
	{ "iso_8859-5:1988", encoding_name::ISO_8859_5 },
	{ "arabic", encoding_name::ISO_8859_6 },
	{ "asmo-708", encoding_name::ISO_8859_6 },
	{ "csiso88596e", encoding_name::ISO_8859_6 },
	{ "csiso88596i", encoding_name::ISO_8859_6 },
	{ "csisolatinarabic", encoding_name::ISO_8859_6 },
	{ "ecma-114", encoding_name::ISO_8859_6 },
	{ "iso-8859-6", encoding_name::ISO_8859_6 },
	{ "iso-8859-6-e", encoding_name::ISO_8859_6 },
	{ "iso-8859-6-i", encoding_name::ISO_8859_6 },
	{ "iso-ir-127", encoding_name::ISO_8859_6 },
	{ "iso8859-6", encoding_name::ISO_8859_6 },
	{ "iso88596", encoding_name::ISO_8859_6 },
	{ "iso_8859-6", encoding_name::ISO_8859_6 },
	{ "iso_8859-6:1987", encoding_name::ISO_8859_6 },
	{ "csisolatingreek", encoding_name::ISO_8859_7 },
	{ "ecma-118", encoding_name::ISO_8859_7 },
	{ "elot_928", encoding_name::ISO_8859_7 },
	{ "greek", encoding_name::ISO_8859_7 },
	{ "greek8", encoding_name::ISO_8859_7 },
	{ "iso-8859-7", encoding_name::ISO_8859_7 },
	{ "iso-ir-126", encoding_name::ISO_8859_7 },
	{ "iso8859-7", encoding_name::ISO_8859_7 },
	{ "iso88597", encoding_name::ISO_8859_7 },
	{ "iso_8859-7", encoding_name::ISO_8859_7 },
	{ "iso_8859-7:1987", encoding_name::ISO_8859_7 },
	{ "sun_eu_greek", encoding_name::ISO_8859_7 },
	{ "csiso88598e", encoding_name::ISO_8859_8 },
	{ "csisolatinhebrew", encoding_name::ISO_8859_8 },
	{ "hebrew", encoding_name::ISO_8859_8 },
	{ "iso-8859-8", encoding_name::ISO_8859_8 },
	{ "iso-8859-8-e", encoding_name::ISO_8859_8 },
	{ "iso-ir-138", encoding_name::ISO_8859_8 },
	{ "iso8859-8", encoding_name::ISO_8859_8 },
	{ "iso88598", encoding_name::ISO_8859_8 },
	{ "iso_8859-8", encoding_name::ISO_8859_8 },
	{ "iso_8859-8:1988", encoding_name::ISO_8859_8 },
	{ "visual", encoding_name::ISO_8859_8 },
	{ "csiso88598i", encoding_name::ISO_8859_8_I },
	{ "iso-8859-8-i", encoding_name::ISO_8859_8_I },
	{ "logical", encoding_name::ISO_8859_8_I },
	{ "csisolatin6", encoding_name::ISO_8859_10 },
	{ "iso-8859-10", encoding_name::ISO_8859_10 },
	{ "iso-ir-157", encoding_name::ISO_8859_10 },
	{ "iso8859-10", encoding_name::ISO_8859_10 },
	{ "iso885910", encoding_name::ISO_8859_10 },
	{ "l6", encoding_name::ISO_8859_10 },
	{ "latin6", encoding_name::ISO_8859_10 },
	{ "iso-8859-13", encoding_name::ISO_8859_13 },
	{ "iso8859-13", encoding_name::ISO_8859_13 },
	{ "iso885913", encoding_name::ISO_8859_13 },
	{ "iso-8859-14", encoding_name::ISO_8859_14 },
	{ "iso8859-14", encoding_name::ISO_8859_14 },
	{ "iso885914", encoding_name::ISO_8859_14 },
	{ "csisolatin9", encoding_name::ISO_8859_15 },
	{ "iso-8859-15", encoding_name::ISO_8859_15 },
	{ "iso8859-15", encoding_name::ISO_8859_15 },
	{ "iso885915", encoding_name::ISO_8859_15 },
	{ "iso_8859-15", encoding_name::ISO_8859_15 },
	{ "l9", encoding_name::ISO_8859_15 },
	{ "iso-8859-16", encoding_name::ISO_8859_16 },
	{ "cskoi8r", encoding_name::KOI8_R },
	{ "koi", encoding_name::KOI8_R },
	{ "koi8", encoding_name::KOI8_R },
	{ "koi8-r", encoding_name::KOI8_R },
	{ "koi8_r", encoding_name::KOI8_R },
	{ "koi8-ru", encoding_name::KOI8_U },
	{ "koi8-u", encoding_name::KOI8_U },
	{ "csmacintosh", encoding_name::macintosh },
	{ "mac", encoding_name::macintosh },
	{ "macintosh", encoding_name::macintosh },
	{ "x-mac-roman", encoding_name::macintosh },
	{ "dos-874", encoding_name::windows_874 },
	{ "iso-8859-11", encoding_name::windows_874 },
	{ "iso8859-11", encoding_name::windows_874 },
	{ "iso885911", encoding_name::windows_874 },
	{ "tis-620", encoding_name::windows_874 },
	{ "windows-874", encoding_name::windows_874 },
	{ "cp1250", encoding_name::windows_1250 },
	{ "windows-1250", encoding_name::windows_1250 },
	{ "x-cp1250", encoding_name::windows_1250 },
	{ "cp1251", encoding_name::windows_1251 },
	{ "windows-1251", encoding_name::windows_1251 },
	{ "x-cp1251", encoding_name::windows_1251 },
	{ "ansi_x3.4-1968", encoding_name::windows_1252 },
	{ "ascii", encoding_name::windows_1252 },
	{ "cp1252", encoding_name::windows_1252 },
	{ "cp819", encoding_name::windows_1252 },
	{ "csisolatin1", encoding_name::windows_1252 },
	{ "ibm819", encoding_name::windows_1252 },
	{ "iso-8859-1", encoding_name::windows_1252 },
	{ "iso-ir-100", encoding_name::windows_1252 },
	{ "iso8859-1", encoding_name::windows_1252 },
	{ "iso88591", encoding_name::windows_1252 },
	{ "iso_8859-1", encoding_name::windows_1252 },
	{ "iso_8859-1:1987", encoding_name::windows_1252 },
	{ "l1", encoding_name::windows_1252 },
	{ "latin1", encoding_name::windows_1252 },
	{ "us-ascii", encoding_name::windows_1252 },
	{ "windows-1252", encoding_name::windows_1252 },
	{ "x-cp1252", encoding_name::windows_1252 },
	{ "cp1253", encoding_name::windows_1253 },
	{ "windows-1253", encoding_name::windows_1253 },
	{ "x-cp1253", encoding_name::windows_1253 },
	{ "cp1254", encoding_name::windows_1254 },
	{ "csisolatin5", encoding_name::windows_1254 },
	{ "iso-8859-9", encoding_name::windows_1254 },
	{ "iso-ir-148", encoding_name::windows_1254 },
	{ "iso8859-9", encoding_name::windows_1254 },
	{ "iso88599", encoding_name::windows_1254 },
	{ "iso_8859-9", encoding_name::windows_1254 },
	{ "iso_8859-9:1989", encoding_name::windows_1254 },
	{ "l5", encoding_name::windows_1254 },
	{ "latin5", encoding_name::windows_1254 },
	{ "windows-1254", encoding_name::windows_1254 },
	{ "x-cp1254", encoding_name::windows_1254 },
	{ "cp1255", encoding_name::windows_1255 },
	{ "windows-1255", encoding_name::windows_1255 },
	{ "x-cp1255", encoding_name::windows_1255 },
	{ "cp1256", encoding_name::windows_1256 },
	{ "windows-1256", encoding_name::windows_1256 },
	{ "x-cp1256", encoding_name::windows_1256 },
	{ "cp1257", encoding_name::windows_1257 },
	{ "windows-1257", encoding_name::windows_1257 },
	{ "x-cp1257", encoding_name::windows_1257 },
	{ "cp1258", encoding_name::windows_1258 },
	{ "windows-1258", encoding_name::windows_1258 },
	{ "x-cp1258", encoding_name::windows_1258 },
	{ "x-mac-cyrillic", encoding_name::x_mac_cyrillic },
	{ "x-mac-ukrainian", encoding_name::x_mac_cyrillic },
	{ "chinese", encoding_name::GBK },
	{ "csgb2312", encoding_name::GBK },
	{ "csiso58gb231280", encoding_name::GBK },
	{ "gb2312", encoding_name::GBK },
	{ "gb_2312", encoding_name::GBK },
	{ "gb_2312-80", encoding_name::GBK },
	{ "gbk", encoding_name::GBK },
	{ "iso-ir-58", encoding_name::GBK },
	{ "x-gbk", encoding_name::GBK },
	{ "gb18030", encoding_name::gb18030 },
	{ "big5", encoding_name::Big5 },
	{ "big5-hkscs", encoding_name::Big5 },
	{ "cn-big5", encoding_name::Big5 },
	{ "csbig5", encoding_name::Big5 },
	{ "x-x-big5", encoding_name::Big5 },
	{ "cseucpkdfmtjapanese", encoding_name::EUC_JP },
	{ "euc-jp", encoding_name::EUC_JP },
	{ "x-euc-jp", encoding_name::EUC_JP },
	{ "csiso2022jp", encoding_name::ISO_2022_JP },
	{ "iso-2022-jp", encoding_name::ISO_2022_JP },
	{ "csshiftjis", encoding_name::Shift_JIS },
	{ "ms932", encoding_name::Shift_JIS },
	{ "ms_kanji", encoding_name::Shift_JIS },
	{ "shift-jis", encoding_name::Shift_JIS },
	{ "shift_jis", encoding_name::Shift_JIS },
	{ "sjis", encoding_name::Shift_JIS },
	{ "windows-31j", encoding_name::Shift_JIS },
	{ "x-sjis", encoding_name::Shift_JIS },
	{ "cseuckr", encoding_name::EUC_KR },
	{ "csksc56011987", encoding_name::EUC_KR },
	{ "euc-kr", encoding_name::EUC_KR },
	{ "iso-ir-149", encoding_name::EUC_KR },
	{ "korean", encoding_name::EUC_KR },
	{ "ks_c_5601-1987", encoding_name::EUC_KR },
	{ "ks_c_5601-1989", encoding_name::EUC_KR },
	{ "ksc5601", encoding_name::EUC_KR },
	{ "ksc_5601", encoding_name::EUC_KR },
	{ "windows-949", encoding_name::EUC_KR },
	{ "csiso2022kr", encoding_name::replacement },
	{ "hz-gb-2312", encoding_name::replacement },
	{ "iso-2022-cn", encoding_name::replacement },
	{ "iso-2022-cn-ext", encoding_name::replacement },
	{ "iso-2022-kr", encoding_name::replacement },
	{ "replacement", encoding_name::replacement },
	{ "utf-16be", encoding_name::UTF_16BE },
	{ "utf-16", encoding_name::UTF_16LE },
	{ "utf-16le", encoding_name::UTF_16LE },
	{ "x-user-defined", encoding_name::x_user_defined },
};
