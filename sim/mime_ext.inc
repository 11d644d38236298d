".323",
".*",
".acx",
".ai",
".aif",
".aifc",
".aiff",
".asf",
".asr",
".asx",
".au",
".avi",
".axs",
".bas",
".bcpio",
".bin",
".bmp",
".c",
".cat",
".cbx",
".ccx",
".cer",
".class",
".clp",
".cmx",
".cod",
".cpio",
".cpx",
".crd",
".crl",
".crt",
".csh",
".css",
".dcr",
".der",
".dir",
".dll",
".dms",
".doc",
".dot",
".dvi",
".dxr",
".eps",
".etx",
".evy",
".exe",
".fif",
".flac",
".flr",
".gif",
".gtar",
".gz",
".h",
".hdf",
".hlp",
".hqx",
".hta",
".htc",
".htm",
".html",
".htt",
".ico",
".ief",
".iii",
".ins",
".isp",
".jfif",
".jpe",
".jpeg",
".jpg",
".js",
".json",
".latex",
".lha",
".lsf",
".lsx",
".lzh",
".m13",
".m14",
".m3u",
".m4a",
".man",
".mdb",
".me",
".mht",
".mhtml",
".mid",
".mka",
".mkv",
".mny",
".mov",
".movie",
".mp2",
".mp3",
".mp4",
".mpa",
".mpe",
".mpeg",
".mpg",
".mpp",
".mpv2",
".ms",
".msg",
".mvb",
".nc",
".nws",
".oda",
".odf",
".ogg",
".p10",
".p12",
".p7b",
".p7c",
".p7m",
".p7r",
".p7s",
".pbm",
".pdf",
".pfx",
".pgm",
".pko",
".pma",
".pmc",
".pml",
".pmr",
".pmw",
".png",
".pnm",
".pot",
".ppm",
".pps",
".ppt",
".prf",
".ps",
".pub",
".qt",
".ra",
".ram",
".ras",
".rgb",
".rmi",
".roff",
".rtf",
".rtx",
".scd",
".sct",
".setpay",
".setreg",
".sh",
".shar",
".sit",
".snd",
".spc",
".spl",
".src",
".sst",
".stl",
".stm",
".sv4cpio",
".sv4crc",
".svg",
".swf",
".t",
".tar",
".tcl",
".tex",
".texi",
".texinfo",
".tgz",
".tif",
".tiff",
".tr",
".trm",
".tsv",
".ttf",
".txt",
".uls",
".ustar",
".vcf",
".vrml",
".wav",
".wcm",
".wdb",
".weba",
".webm",
".wks",
".wmf",
".wps",
".wri",
".wrl",
".wrz",
".xaf",
".xbm",
".xla",
".xlc",
".xlm",
".xls",
".xlt",
".xlw",
".xml",
".xof",
".xpm",
".xwd",
".z",
".zip",
