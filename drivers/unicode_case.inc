// code point, full lower, upper and title case mapping: Python 3.12 unicodedata (Unicode 15), without the mappings added after Unicode 6
{0x41, "\x61", "\x41", "\x41"},
{0x42, "\x62", "\x42", "\x42"},
{0x43, "\x63", "\x43", "\x43"},
{0x44, "\x64", "\x44", "\x44"},
{0x45, "\x65", "\x45", "\x45"},
{0x46, "\x66", "\x46", "\x46"},
{0x47, "\x67", "\x47", "\x47"},
{0x48, "\x68", "\x48", "\x48"},
{0x49, "\x69", "\x49", "\x49"},
{0x4a, "\x6a", "\x4a", "\x4a"},
{0x4b, "\x6b", "\x4b", "\x4b"},
{0x4c, "\x6c", "\x4c", "\x4c"},
{0x4d, "\x6d", "\x4d", "\x4d"},
{0x4e, "\x6e", "\x4e", "\x4e"},
{0x4f, "\x6f", "\x4f", "\x4f"},
{0x50, "\x70", "\x50", "\x50"},
{0x51, "\x71", "\x51", "\x51"},
{0x52, "\x72", "\x52", "\x52"},
{0x53, "\x73", "\x53", "\x53"},
{0x54, "\x74", "\x54", "\x54"},
{0x55, "\x75", "\x55", "\x55"},
{0x56, "\x76", "\x56", "\x56"},
{0x57, "\x77", "\x57", "\x57"},
{0x58, "\x78", "\x58", "\x58"},
{0x59, "\x79", "\x59", "\x59"},
{0x5a, "\x7a", "\x5a", "\x5a"},
{0x61, "\x61", "\x41", "\x41"},
{0x62, "\x62", "\x42", "\x42"},
{0x63, "\x63", "\x43", "\x43"},
{0x64, "\x64", "\x44", "\x44"},
{0x65, "\x65", "\x45", "\x45"},
{0x66, "\x66", "\x46", "\x46"},
{0x67, "\x67", "\x47", "\x47"},
{0x68, "\x68", "\x48", "\x48"},
{0x69, "\x69", "\x49", "\x49"},
{0x6a, "\x6a", "\x4a", "\x4a"},
{0x6b, "\x6b", "\x4b", "\x4b"},
{0x6c, "\x6c", "\x4c", "\x4c"},
{0x6d, "\x6d", "\x4d", "\x4d"},
{0x6e, "\x6e", "\x4e", "\x4e"},
{0x6f, "\x6f", "\x4f", "\x4f"},
{0x70, "\x70", "\x50", "\x50"},
{0x71, "\x71", "\x51", "\x51"},
{0x72, "\x72", "\x52", "\x52"},
{0x73, "\x73", "\x53", "\x53"},
{0x74, "\x74", "\x54", "\x54"},
{0x75, "\x75", "\x55", "\x55"},
{0x76, "\x76", "\x56", "\x56"},
{0x77, "\x77", "\x57", "\x57"},
{0x78, "\x78", "\x58", "\x58"},
{0x79, "\x79", "\x59", "\x59"},
{0x7a, "\x7a", "\x5a", "\x5a"},
{0xb5, "\xc2\xb5", "\xce\x9c", "\xce\x9c"},
{0xc0, "\xc3\xa0", "\xc3\x80", "\xc3\x80"},
{0xc1, "\xc3\xa1", "\xc3\x81", "\xc3\x81"},
{0xc2, "\xc3\xa2", "\xc3\x82", "\xc3\x82"},
{0xc3, "\xc3\xa3", "\xc3\x83", "\xc3\x83"},
{0xc4, "\xc3\xa4", "\xc3\x84", "\xc3\x84"},
{0xc5, "\xc3\xa5", "\xc3\x85", "\xc3\x85"},
{0xc6, "\xc3\xa6", "\xc3\x86", "\xc3\x86"},
{0xc7, "\xc3\xa7", "\xc3\x87", "\xc3\x87"},
{0xc8, "\xc3\xa8", "\xc3\x88", "\xc3\x88"},
{0xc9, "\xc3\xa9", "\xc3\x89", "\xc3\x89"},
{0xca, "\xc3\xaa", "\xc3\x8a", "\xc3\x8a"},
{0xcb, "\xc3\xab", "\xc3\x8b", "\xc3\x8b"},
{0xcc, "\xc3\xac", "\xc3\x8c", "\xc3\x8c"},
{0xcd, "\xc3\xad", "\xc3\x8d", "\xc3\x8d"},
{0xce, "\xc3\xae", "\xc3\x8e", "\xc3\x8e"},
{0xcf, "\xc3\xaf", "\xc3\x8f", "\xc3\x8f"},
{0xd0, "\xc3\xb0", "\xc3\x90", "\xc3\x90"},
{0xd1, "\xc3\xb1", "\xc3\x91", "\xc3\x91"},
{0xd2, "\xc3\xb2", "\xc3\x92", "\xc3\x92"},
{0xd3, "\xc3\xb3", "\xc3\x93", "\xc3\x93"},
{0xd4, "\xc3\xb4", "\xc3\x94", "\xc3\x94"},
{0xd5, "\xc3\xb5", "\xc3\x95", "\xc3\x95"},
{0xd6, "\xc3\xb6", "\xc3\x96", "\xc3\x96"},
{0xd8, "\xc3\xb8", "\xc3\x98", "\xc3\x98"},
{0xd9, "\xc3\xb9", "\xc3\x99", "\xc3\x99"},
{0xda, "\xc3\xba", "\xc3\x9a", "\xc3\x9a"},
{0xdb, "\xc3\xbb", "\xc3\x9b", "\xc3\x9b"},
{0xdc, "\xc3\xbc", "\xc3\x9c", "\xc3\x9c"},
{0xdd, "\xc3\xbd", "\xc3\x9d", "\xc3\x9d"},
{0xde, "\xc3\xbe", "\xc3\x9e", "\xc3\x9e"},
{0xdf, "\xc3\x9f", "\x53\x53", "\x53\x73"},
{0xe0, "\xc3\xa0", "\xc3\x80", "\xc3\x80"},
{0xe1, "\xc3\xa1", "\xc3\x81", "\xc3\x81"},
{0xe2, "\xc3\xa2", "\xc3\x82", "\xc3\x82"},
{0xe3, "\xc3\xa3", "\xc3\x83", "\xc3\x83"},
{0xe4, "\xc3\xa4", "\xc3\x84", "\xc3\x84"},
{0xe5, "\xc3\xa5", "\xc3\x85", "\xc3\x85"},
{0xe6, "\xc3\xa6", "\xc3\x86", "\xc3\x86"},
{0xe7, "\xc3\xa7", "\xc3\x87", "\xc3\x87"},
{0xe8, "\xc3\xa8", "\xc3\x88", "\xc3\x88"},
{0xe9, "\xc3\xa9", "\xc3\x89", "\xc3\x89"},
{0xea, "\xc3\xaa", "\xc3\x8a", "\xc3\x8a"},
{0xeb, "\xc3\xab", "\xc3\x8b", "\xc3\x8b"},
{0xec, "\xc3\xac", "\xc3\x8c", "\xc3\x8c"},
{0xed, "\xc3\xad", "\xc3\x8d", "\xc3\x8d"},
{0xee, "\xc3\xae", "\xc3\x8e", "\xc3\x8e"},
{0xef, "\xc3\xaf", "\xc3\x8f", "\xc3\x8f"},
{0xf0, "\xc3\xb0", "\xc3\x90", "\xc3\x90"},
{0xf1, "\xc3\xb1", "\xc3\x91", "\xc3\x91"},
{0xf2, "\xc3\xb2", "\xc3\x92", "\xc3\x92"},
{0xf3, "\xc3\xb3", "\xc3\x93", "\xc3\x93"},
{0xf4, "\xc3\xb4", "\xc3\x94", "\xc3\x94"},
{0xf5, "\xc3\xb5", "\xc3\x95", "\xc3\x95"},
{0xf6, "\xc3\xb6", "\xc3\x96", "\xc3\x96"},
{0xf8, "\xc3\xb8", "\xc3\x98", "\xc3\x98"},
{0xf9, "\xc3\xb9", "\xc3\x99", "\xc3\x99"},
{0xfa, "\xc3\xba", "\xc3\x9a", "\xc3\x9a"},
{0xfb, "\xc3\xbb", "\xc3\x9b", "\xc3\x9b"},
{0xfc, "\xc3\xbc", "\xc3\x9c", "\xc3\x9c"},
{0xfd, "\xc3\xbd", "\xc3\x9d", "\xc3\x9d"},
{0xfe, "\xc3\xbe", "\xc3\x9e", "\xc3\x9e"},
{0xff, "\xc3\xbf", "\xc5\xb8", "\xc5\xb8"},
{0x100, "\xc4\x81", "\xc4\x80", "\xc4\x80"},
{0x101, "\xc4\x81", "\xc4\x80", "\xc4\x80"},
{0x102, "\xc4\x83", "\xc4\x82", "\xc4\x82"},
{0x103, "\xc4\x83", "\xc4\x82", "\xc4\x82"},
{0x104, "\xc4\x85", "\xc4\x84", "\xc4\x84"},
{0x105, "\xc4\x85", "\xc4\x84", "\xc4\x84"},
{0x106, "\xc4\x87", "\xc4\x86", "\xc4\x86"},
{0x107, "\xc4\x87", "\xc4\x86", "\xc4\x86"},
{0x108, "\xc4\x89", "\xc4\x88", "\xc4\x88"},
{0x109, "\xc4\x89", "\xc4\x88", "\xc4\x88"},
{0x10a, "\xc4\x8b", "\xc4\x8a", "\xc4\x8a"},
{0x10b, "\xc4\x8b", "\xc4\x8a", "\xc4\x8a"},
{0x10c, "\xc4\x8d", "\xc4\x8c", "\xc4\x8c"},
{0x10d, "\xc4\x8d", "\xc4\x8c", "\xc4\x8c"},
{0x10e, "\xc4\x8f", "\xc4\x8e", "\xc4\x8e"},
{0x10f, "\xc4\x8f", "\xc4\x8e", "\xc4\x8e"},
{0x110, "\xc4\x91", "\xc4\x90", "\xc4\x90"},
{0x111, "\xc4\x91", "\xc4\x90", "\xc4\x90"},
{0x112, "\xc4\x93", "\xc4\x92", "\xc4\x92"},
{0x113, "\xc4\x93", "\xc4\x92", "\xc4\x92"},
{0x114, "\xc4\x95", "\xc4\x94", "\xc4\x94"},
{0x115, "\xc4\x95", "\xc4\x94", "\xc4\x94"},
{0x116, "\xc4\x97", "\xc4\x96", "\xc4\x96"},
{0x117, "\xc4\x97", "\xc4\x96", "\xc4\x96"},
{0x118, "\xc4\x99", "\xc4\x98", "\xc4\x98"},
{0x119, "\xc4\x99", "\xc4\x98", "\xc4\x98"},
{0x11a, "\xc4\x9b", "\xc4\x9a", "\xc4\x9a"},
{0x11b, "\xc4\x9b", "\xc4\x9a", "\xc4\x9a"},
{0x11c, "\xc4\x9d", "\xc4\x9c", "\xc4\x9c"},
{0x11d, "\xc4\x9d", "\xc4\x9c", "\xc4\x9c"},
{0x11e, "\xc4\x9f", "\xc4\x9e", "\xc4\x9e"},
{0x11f, "\xc4\x9f", "\xc4\x9e", "\xc4\x9e"},
{0x120, "\xc4\xa1", "\xc4\xa0", "\xc4\xa0"},
{0x121, "\xc4\xa1", "\xc4\xa0", "\xc4\xa0"},
{0x122, "\xc4\xa3", "\xc4\xa2", "\xc4\xa2"},
{0x123, "\xc4\xa3", "\xc4\xa2", "\xc4\xa2"},
{0x124, "\xc4\xa5", "\xc4\xa4", "\xc4\xa4"},
{0x125, "\xc4\xa5", "\xc4\xa4", "\xc4\xa4"},
{0x126, "\xc4\xa7", "\xc4\xa6", "\xc4\xa6"},
{0x127, "\xc4\xa7", "\xc4\xa6", "\xc4\xa6"},
{0x128, "\xc4\xa9", "\xc4\xa8", "\xc4\xa8"},
{0x129, "\xc4\xa9", "\xc4\xa8", "\xc4\xa8"},
{0x12a, "\xc4\xab", "\xc4\xaa", "\xc4\xaa"},
{0x12b, "\xc4\xab", "\xc4\xaa", "\xc4\xaa"},
{0x12c, "\xc4\xad", "\xc4\xac", "\xc4\xac"},
{0x12d, "\xc4\xad", "\xc4\xac", "\xc4\xac"},
{0x12e, "\xc4\xaf", "\xc4\xae", "\xc4\xae"},
{0x12f, "\xc4\xaf", "\xc4\xae", "\xc4\xae"},
{0x130, "\x69\xcc\x87", "\xc4\xb0", "\xc4\xb0"},
{0x131, "\xc4\xb1", "\x49", "\x49"},
{0x132, "\xc4\xb3", "\xc4\xb2", "\xc4\xb2"},
{0x133, "\xc4\xb3", "\xc4\xb2", "\xc4\xb2"},
{0x134, "\xc4\xb5", "\xc4\xb4", "\xc4\xb4"},
{0x135, "\xc4\xb5", "\xc4\xb4", "\xc4\xb4"},
{0x136, "\xc4\xb7", "\xc4\xb6", "\xc4\xb6"},
{0x137, "\xc4\xb7", "\xc4\xb6", "\xc4\xb6"},
{0x139, "\xc4\xba", "\xc4\xb9", "\xc4\xb9"},
{0x13a, "\xc4\xba", "\xc4\xb9", "\xc4\xb9"},
{0x13b, "\xc4\xbc", "\xc4\xbb", "\xc4\xbb"},
{0x13c, "\xc4\xbc", "\xc4\xbb", "\xc4\xbb"},
{0x13d, "\xc4\xbe", "\xc4\xbd", "\xc4\xbd"},
{0x13e, "\xc4\xbe", "\xc4\xbd", "\xc4\xbd"},
{0x13f, "\xc5\x80", "\xc4\xbf", "\xc4\xbf"},
{0x140, "\xc5\x80", "\xc4\xbf", "\xc4\xbf"},
{0x141, "\xc5\x82", "\xc5\x81", "\xc5\x81"},
{0x142, "\xc5\x82", "\xc5\x81", "\xc5\x81"},
{0x143, "\xc5\x84", "\xc5\x83", "\xc5\x83"},
{0x144, "\xc5\x84", "\xc5\x83", "\xc5\x83"},
{0x145, "\xc5\x86", "\xc5\x85", "\xc5\x85"},
{0x146, "\xc5\x86", "\xc5\x85", "\xc5\x85"},
{0x147, "\xc5\x88", "\xc5\x87", "\xc5\x87"},
{0x148, "\xc5\x88", "\xc5\x87", "\xc5\x87"},
{0x149, "\xc5\x89", "\xca\xbc\x4e", "\xca\xbc\x4e"},
{0x14a, "\xc5\x8b", "\xc5\x8a", "\xc5\x8a"},
{0x14b, "\xc5\x8b", "\xc5\x8a", "\xc5\x8a"},
{0x14c, "\xc5\x8d", "\xc5\x8c", "\xc5\x8c"},
{0x14d, "\xc5\x8d", "\xc5\x8c", "\xc5\x8c"},
{0x14e, "\xc5\x8f", "\xc5\x8e", "\xc5\x8e"},
{0x14f, "\xc5\x8f", "\xc5\x8e", "\xc5\x8e"},
{0x150, "\xc5\x91", "\xc5\x90", "\xc5\x90"},
{0x151, "\xc5\x91", "\xc5\x90", "\xc5\x90"},
{0x152, "\xc5\x93", "\xc5\x92", "\xc5\x92"},
{0x153, "\xc5\x93", "\xc5\x92", "\xc5\x92"},
{0x154, "\xc5\x95", "\xc5\x94", "\xc5\x94"},
{0x155, "\xc5\x95", "\xc5\x94", "\xc5\x94"},
{0x156, "\xc5\x97", "\xc5\x96", "\xc5\x96"},
{0x157, "\xc5\x97", "\xc5\x96", "\xc5\x96"},
{0x158, "\xc5\x99", "\xc5\x98", "\xc5\x98"},
{0x159, "\xc5\x99", "\xc5\x98", "\xc5\x98"},
{0x15a, "\xc5\x9b", "\xc5\x9a", "\xc5\x9a"},
{0x15b, "\xc5\x9b", "\xc5\x9a", "\xc5\x9a"},
{0x15c, "\xc5\x9d", "\xc5\x9c", "\xc5\x9c"},
{0x15d, "\xc5\x9d", "\xc5\x9c", "\xc5\x9c"},
{0x15e, "\xc5\x9f", "\xc5\x9e", "\xc5\x9e"},
{0x15f, "\xc5\x9f", "\xc5\x9e", "\xc5\x9e"},
{0x160, "\xc5\xa1", "\xc5\xa0", "\xc5\xa0"},
{0x161, "\xc5\xa1", "\xc5\xa0", "\xc5\xa0"},
{0x162, "\xc5\xa3", "\xc5\xa2", "\xc5\xa2"},
{0x163, "\xc5\xa3", "\xc5\xa2", "\xc5\xa2"},
{0x164, "\xc5\xa5", "\xc5\xa4", "\xc5\xa4"},
{0x165, "\xc5\xa5", "\xc5\xa4", "\xc5\xa4"},
{0x166, "\xc5\xa7", "\xc5\xa6", "\xc5\xa6"},
{0x167, "\xc5\xa7", "\xc5\xa6", "\xc5\xa6"},
{0x168, "\xc5\xa9", "\xc5\xa8", "\xc5\xa8"},
{0x169, "\xc5\xa9", "\xc5\xa8", "\xc5\xa8"},
{0x16a, "\xc5\xab", "\xc5\xaa", "\xc5\xaa"},
{0x16b, "\xc5\xab", "\xc5\xaa", "\xc5\xaa"},
{0x16c, "\xc5\xad", "\xc5\xac", "\xc5\xac"},
{0x16d, "\xc5\xad", "\xc5\xac", "\xc5\xac"},
{0x16e, "\xc5\xaf", "\xc5\xae", "\xc5\xae"},
{0x16f, "\xc5\xaf", "\xc5\xae", "\xc5\xae"},
{0x170, "\xc5\xb1", "\xc5\xb0", "\xc5\xb0"},
{0x171, "\xc5\xb1", "\xc5\xb0", "\xc5\xb0"},
{0x172, "\xc5\xb3", "\xc5\xb2", "\xc5\xb2"},
{0x173, "\xc5\xb3", "\xc5\xb2", "\xc5\xb2"},
{0x174, "\xc5\xb5", "\xc5\xb4", "\xc5\xb4"},
{0x175, "\xc5\xb5", "\xc5\xb4", "\xc5\xb4"},
{0x176, "\xc5\xb7", "\xc5\xb6", "\xc5\xb6"},
{0x177, "\xc5\xb7", "\xc5\xb6", "\xc5\xb6"},
{0x178, "\xc3\xbf", "\xc5\xb8", "\xc5\xb8"},
{0x179, "\xc5\xba", "\xc5\xb9", "\xc5\xb9"},
{0x17a, "\xc5\xba", "\xc5\xb9", "\xc5\xb9"},
{0x17b, "\xc5\xbc", "\xc5\xbb", "\xc5\xbb"},
{0x17c, "\xc5\xbc", "\xc5\xbb", "\xc5\xbb"},
{0x17d, "\xc5\xbe", "\xc5\xbd", "\xc5\xbd"},
{0x17e, "\xc5\xbe", "\xc5\xbd", "\xc5\xbd"},
{0x17f, "\xc5\xbf", "\x53", "\x53"},
{0x180, "\xc6\x80", "\xc9\x83", "\xc9\x83"},
{0x181, "\xc9\x93", "\xc6\x81", "\xc6\x81"},
{0x182, "\xc6\x83", "\xc6\x82", "\xc6\x82"},
{0x183, "\xc6\x83", "\xc6\x82", "\xc6\x82"},
{0x184, "\xc6\x85", "\xc6\x84", "\xc6\x84"},
{0x185, "\xc6\x85", "\xc6\x84", "\xc6\x84"},
{0x186, "\xc9\x94", "\xc6\x86", "\xc6\x86"},
{0x187, "\xc6\x88", "\xc6\x87", "\xc6\x87"},
{0x188, "\xc6\x88", "\xc6\x87", "\xc6\x87"},
{0x189, "\xc9\x96", "\xc6\x89", "\xc6\x89"},
{0x18a, "\xc9\x97", "\xc6\x8a", "\xc6\x8a"},
{0x18b, "\xc6\x8c", "\xc6\x8b", "\xc6\x8b"},
{0x18c, "\xc6\x8c", "\xc6\x8b", "\xc6\x8b"},
{0x18e, "\xc7\x9d", "\xc6\x8e", "\xc6\x8e"},
{0x18f, "\xc9\x99", "\xc6\x8f", "\xc6\x8f"},
{0x190, "\xc9\x9b", "\xc6\x90", "\xc6\x90"},
{0x191, "\xc6\x92", "\xc6\x91", "\xc6\x91"},
{0x192, "\xc6\x92", "\xc6\x91", "\xc6\x91"},
{0x193, "\xc9\xa0", "\xc6\x93", "\xc6\x93"},
{0x194, "\xc9\xa3", "\xc6\x94", "\xc6\x94"},
{0x195, "\xc6\x95", "\xc7\xb6", "\xc7\xb6"},
{0x196, "\xc9\xa9", "\xc6\x96", "\xc6\x96"},
{0x197, "\xc9\xa8", "\xc6\x97", "\xc6\x97"},
{0x198, "\xc6\x99", "\xc6\x98", "\xc6\x98"},
{0x199, "\xc6\x99", "\xc6\x98", "\xc6\x98"},
{0x19a, "\xc6\x9a", "\xc8\xbd", "\xc8\xbd"},
{0x19c, "\xc9\xaf", "\xc6\x9c", "\xc6\x9c"},
{0x19d, "\xc9\xb2", "\xc6\x9d", "\xc6\x9d"},
{0x19e, "\xc6\x9e", "\xc8\xa0", "\xc8\xa0"},
{0x19f, "\xc9\xb5", "\xc6\x9f", "\xc6\x9f"},
{0x1a0, "\xc6\xa1", "\xc6\xa0", "\xc6\xa0"},
{0x1a1, "\xc6\xa1", "\xc6\xa0", "\xc6\xa0"},
{0x1a2, "\xc6\xa3", "\xc6\xa2", "\xc6\xa2"},
{0x1a3, "\xc6\xa3", "\xc6\xa2", "\xc6\xa2"},
{0x1a4, "\xc6\xa5", "\xc6\xa4", "\xc6\xa4"},
{0x1a5, "\xc6\xa5", "\xc6\xa4", "\xc6\xa4"},
{0x1a6, "\xca\x80", "\xc6\xa6", "\xc6\xa6"},
{0x1a7, "\xc6\xa8", "\xc6\xa7", "\xc6\xa7"},
{0x1a8, "\xc6\xa8", "\xc6\xa7", "\xc6\xa7"},
{0x1a9, "\xca\x83", "\xc6\xa9", "\xc6\xa9"},
{0x1ac, "\xc6\xad", "\xc6\xac", "\xc6\xac"},
{0x1ad, "\xc6\xad", "\xc6\xac", "\xc6\xac"},
{0x1ae, "\xca\x88", "\xc6\xae", "\xc6\xae"},
{0x1af, "\xc6\xb0", "\xc6\xaf", "\xc6\xaf"},
{0x1b0, "\xc6\xb0", "\xc6\xaf", "\xc6\xaf"},
{0x1b1, "\xca\x8a", "\xc6\xb1", "\xc6\xb1"},
{0x1b2, "\xca\x8b", "\xc6\xb2", "\xc6\xb2"},
{0x1b3, "\xc6\xb4", "\xc6\xb3", "\xc6\xb3"},
{0x1b4, "\xc6\xb4", "\xc6\xb3", "\xc6\xb3"},
{0x1b5, "\xc6\xb6", "\xc6\xb5", "\xc6\xb5"},
{0x1b6, "\xc6\xb6", "\xc6\xb5", "\xc6\xb5"},
{0x1b7, "\xca\x92", "\xc6\xb7", "\xc6\xb7"},
{0x1b8, "\xc6\xb9", "\xc6\xb8", "\xc6\xb8"},
{0x1b9, "\xc6\xb9", "\xc6\xb8", "\xc6\xb8"},
{0x1bc, "\xc6\xbd", "\xc6\xbc", "\xc6\xbc"},
{0x1bd, "\xc6\xbd", "\xc6\xbc", "\xc6\xbc"},
{0x1bf, "\xc6\xbf", "\xc7\xb7", "\xc7\xb7"},
{0x1c4, "\xc7\x86", "\xc7\x84", "\xc7\x85"},
{0x1c5, "\xc7\x86", "\xc7\x84", "\xc7\x85"},
{0x1c6, "\xc7\x86", "\xc7\x84", "\xc7\x85"},
{0x1c7, "\xc7\x89", "\xc7\x87", "\xc7\x88"},
{0x1c8, "\xc7\x89", "\xc7\x87", "\xc7\x88"},
{0x1c9, "\xc7\x89", "\xc7\x87", "\xc7\x88"},
{0x1ca, "\xc7\x8c", "\xc7\x8a", "\xc7\x8b"},
{0x1cb, "\xc7\x8c", "\xc7\x8a", "\xc7\x8b"},
{0x1cc, "\xc7\x8c", "\xc7\x8a", "\xc7\x8b"},
{0x1cd, "\xc7\x8e", "\xc7\x8d", "\xc7\x8d"},
{0x1ce, "\xc7\x8e", "\xc7\x8d", "\xc7\x8d"},
{0x1cf, "\xc7\x90", "\xc7\x8f", "\xc7\x8f"},
{0x1d0, "\xc7\x90", "\xc7\x8f", "\xc7\x8f"},
{0x1d1, "\xc7\x92", "\xc7\x91", "\xc7\x91"},
{0x1d2, "\xc7\x92", "\xc7\x91", "\xc7\x91"},
{0x1d3, "\xc7\x94", "\xc7\x93", "\xc7\x93"},
{0x1d4, "\xc7\x94", "\xc7\x93", "\xc7\x93"},
{0x1d5, "\xc7\x96", "\xc7\x95", "\xc7\x95"},
{0x1d6, "\xc7\x96", "\xc7\x95", "\xc7\x95"},
{0x1d7, "\xc7\x98", "\xc7\x97", "\xc7\x97"},
{0x1d8, "\xc7\x98", "\xc7\x97", "\xc7\x97"},
{0x1d9, "\xc7\x9a", "\xc7\x99", "\xc7\x99"},
{0x1da, "\xc7\x9a", "\xc7\x99", "\xc7\x99"},
{0x1db, "\xc7\x9c", "\xc7\x9b", "\xc7\x9b"},
{0x1dc, "\xc7\x9c", "\xc7\x9b", "\xc7\x9b"},
{0x1dd, "\xc7\x9d", "\xc6\x8e", "\xc6\x8e"},
{0x1de, "\xc7\x9f", "\xc7\x9e", "\xc7\x9e"},
{0x1df, "\xc7\x9f", "\xc7\x9e", "\xc7\x9e"},
{0x1e0, "\xc7\xa1", "\xc7\xa0", "\xc7\xa0"},
{0x1e1, "\xc7\xa1", "\xc7\xa0", "\xc7\xa0"},
{0x1e2, "\xc7\xa3", "\xc7\xa2", "\xc7\xa2"},
{0x1e3, "\xc7\xa3", "\xc7\xa2", "\xc7\xa2"},
{0x1e4, "\xc7\xa5", "\xc7\xa4", "\xc7\xa4"},
{0x1e5, "\xc7\xa5", "\xc7\xa4", "\xc7\xa4"},
{0x1e6, "\xc7\xa7", "\xc7\xa6", "\xc7\xa6"},
{0x1e7, "\xc7\xa7", "\xc7\xa6", "\xc7\xa6"},
{0x1e8, "\xc7\xa9", "\xc7\xa8", "\xc7\xa8"},
{0x1e9, "\xc7\xa9", "\xc7\xa8", "\xc7\xa8"},
{0x1ea, "\xc7\xab", "\xc7\xaa", "\xc7\xaa"},
{0x1eb, "\xc7\xab", "\xc7\xaa", "\xc7\xaa"},
{0x1ec, "\xc7\xad", "\xc7\xac", "\xc7\xac"},
{0x1ed, "\xc7\xad", "\xc7\xac", "\xc7\xac"},
{0x1ee, "\xc7\xaf", "\xc7\xae", "\xc7\xae"},
{0x1ef, "\xc7\xaf", "\xc7\xae", "\xc7\xae"},
{0x1f0, "\xc7\xb0", "\x4a\xcc\x8c", "\x4a\xcc\x8c"},
{0x1f1, "\xc7\xb3", "\xc7\xb1", "\xc7\xb2"},
{0x1f2, "\xc7\xb3", "\xc7\xb1", "\xc7\xb2"},
{0x1f3, "\xc7\xb3", "\xc7\xb1", "\xc7\xb2"},
{0x1f4, "\xc7\xb5", "\xc7\xb4", "\xc7\xb4"},
{0x1f5, "\xc7\xb5", "\xc7\xb4", "\xc7\xb4"},
{0x1f6, "\xc6\x95", "\xc7\xb6", "\xc7\xb6"},
{0x1f7, "\xc6\xbf", "\xc7\xb7", "\xc7\xb7"},
{0x1f8, "\xc7\xb9", "\xc7\xb8", "\xc7\xb8"},
{0x1f9, "\xc7\xb9", "\xc7\xb8", "\xc7\xb8"},
{0x1fa, "\xc7\xbb", "\xc7\xba", "\xc7\xba"},
{0x1fb, "\xc7\xbb", "\xc7\xba", "\xc7\xba"},
{0x1fc, "\xc7\xbd", "\xc7\xbc", "\xc7\xbc"},
{0x1fd, "\xc7\xbd", "\xc7\xbc", "\xc7\xbc"},
{0x1fe, "\xc7\xbf", "\xc7\xbe", "\xc7\xbe"},
{0x1ff, "\xc7\xbf", "\xc7\xbe", "\xc7\xbe"},
{0x200, "\xc8\x81", "\xc8\x80", "\xc8\x80"},
{0x201, "\xc8\x81", "\xc8\x80", "\xc8\x80"},
{0x202, "\xc8\x83", "\xc8\x82", "\xc8\x82"},
{0x203, "\xc8\x83", "\xc8\x82", "\xc8\x82"},
{0x204, "\xc8\x85", "\xc8\x84", "\xc8\x84"},
{0x205, "\xc8\x85", "\xc8\x84", "\xc8\x84"},
{0x206, "\xc8\x87", "\xc8\x86", "\xc8\x86"},
{0x207, "\xc8\x87", "\xc8\x86", "\xc8\x86"},
{0x208, "\xc8\x89", "\xc8\x88", "\xc8\x88"},
{0x209, "\xc8\x89", "\xc8\x88", "\xc8\x88"},
{0x20a, "\xc8\x8b", "\xc8\x8a", "\xc8\x8a"},
{0x20b, "\xc8\x8b", "\xc8\x8a", "\xc8\x8a"},
{0x20c, "\xc8\x8d", "\xc8\x8c", "\xc8\x8c"},
{0x20d, "\xc8\x8d", "\xc8\x8c", "\xc8\x8c"},
{0x20e, "\xc8\x8f", "\xc8\x8e", "\xc8\x8e"},
{0x20f, "\xc8\x8f", "\xc8\x8e", "\xc8\x8e"},
{0x210, "\xc8\x91", "\xc8\x90", "\xc8\x90"},
{0x211, "\xc8\x91", "\xc8\x90", "\xc8\x90"},
{0x212, "\xc8\x93", "\xc8\x92", "\xc8\x92"},
{0x213, "\xc8\x93", "\xc8\x92", "\xc8\x92"},
{0x214, "\xc8\x95", "\xc8\x94", "\xc8\x94"},
{0x215, "\xc8\x95", "\xc8\x94", "\xc8\x94"},
{0x216, "\xc8\x97", "\xc8\x96", "\xc8\x96"},
{0x217, "\xc8\x97", "\xc8\x96", "\xc8\x96"},
{0x218, "\xc8\x99", "\xc8\x98", "\xc8\x98"},
{0x219, "\xc8\x99", "\xc8\x98", "\xc8\x98"},
{0x21a, "\xc8\x9b", "\xc8\x9a", "\xc8\x9a"},
{0x21b, "\xc8\x9b", "\xc8\x9a", "\xc8\x9a"},
{0x21c, "\xc8\x9d", "\xc8\x9c", "\xc8\x9c"},
{0x21d, "\xc8\x9d", "\xc8\x9c", "\xc8\x9c"},
{0x21e, "\xc8\x9f", "\xc8\x9e", "\xc8\x9e"},
{0x21f, "\xc8\x9f", "\xc8\x9e", "\xc8\x9e"},
{0x220, "\xc6\x9e", "\xc8\xa0", "\xc8\xa0"},
{0x222, "\xc8\xa3", "\xc8\xa2", "\xc8\xa2"},
{0x223, "\xc8\xa3", "\xc8\xa2", "\xc8\xa2"},
{0x224, "\xc8\xa5", "\xc8\xa4", "\xc8\xa4"},
{0x225, "\xc8\xa5", "\xc8\xa4", "\xc8\xa4"},
{0x226, "\xc8\xa7", "\xc8\xa6", "\xc8\xa6"},
{0x227, "\xc8\xa7", "\xc8\xa6", "\xc8\xa6"},
{0x228, "\xc8\xa9", "\xc8\xa8", "\xc8\xa8"},
{0x229, "\xc8\xa9", "\xc8\xa8", "\xc8\xa8"},
{0x22a, "\xc8\xab", "\xc8\xaa", "\xc8\xaa"},
{0x22b, "\xc8\xab", "\xc8\xaa", "\xc8\xaa"},
{0x22c, "\xc8\xad", "\xc8\xac", "\xc8\xac"},
{0x22d, "\xc8\xad", "\xc8\xac", "\xc8\xac"},
{0x22e, "\xc8\xaf", "\xc8\xae", "\xc8\xae"},
{0x22f, "\xc8\xaf", "\xc8\xae", "\xc8\xae"},
{0x230, "\xc8\xb1", "\xc8\xb0", "\xc8\xb0"},
{0x231, "\xc8\xb1", "\xc8\xb0", "\xc8\xb0"},
{0x232, "\xc8\xb3", "\xc8\xb2", "\xc8\xb2"},
{0x233, "\xc8\xb3", "\xc8\xb2", "\xc8\xb2"},
{0x23a, "\xe2\xb1\xa5", "\xc8\xba", "\xc8\xba"},
{0x23b, "\xc8\xbc", "\xc8\xbb", "\xc8\xbb"},
{0x23c, "\xc8\xbc", "\xc8\xbb", "\xc8\xbb"},
{0x23d, "\xc6\x9a", "\xc8\xbd", "\xc8\xbd"},
{0x23e, "\xe2\xb1\xa6", "\xc8\xbe", "\xc8\xbe"},
{0x23f, "\xc8\xbf", "\xe2\xb1\xbe", "\xe2\xb1\xbe"},
{0x240, "\xc9\x80", "\xe2\xb1\xbf", "\xe2\xb1\xbf"},
{0x241, "\xc9\x82", "\xc9\x81", "\xc9\x81"},
{0x242, "\xc9\x82", "\xc9\x81", "\xc9\x81"},
{0x243, "\xc6\x80", "\xc9\x83", "\xc9\x83"},
{0x244, "\xca\x89", "\xc9\x84", "\xc9\x84"},
{0x245, "\xca\x8c", "\xc9\x85", "\xc9\x85"},
{0x246, "\xc9\x87", "\xc9\x86", "\xc9\x86"},
{0x247, "\xc9\x87", "\xc9\x86", "\xc9\x86"},
{0x248, "\xc9\x89", "\xc9\x88", "\xc9\x88"},
{0x249, "\xc9\x89", "\xc9\x88", "\xc9\x88"},
{0x24a, "\xc9\x8b", "\xc9\x8a", "\xc9\x8a"},
{0x24b, "\xc9\x8b", "\xc9\x8a", "\xc9\x8a"},
{0x24c, "\xc9\x8d", "\xc9\x8c", "\xc9\x8c"},
{0x24d, "\xc9\x8d", "\xc9\x8c", "\xc9\x8c"},
{0x24e, "\xc9\x8f", "\xc9\x8e", "\xc9\x8e"},
{0x24f, "\xc9\x8f", "\xc9\x8e", "\xc9\x8e"},
{0x250, "\xc9\x90", "\xe2\xb1\xaf", "\xe2\xb1\xaf"},
{0x251, "\xc9\x91", "\xe2\xb1\xad", "\xe2\xb1\xad"},
{0x252, "\xc9\x92", "\xe2\xb1\xb0", "\xe2\xb1\xb0"},
{0x253, "\xc9\x93", "\xc6\x81", "\xc6\x81"},
{0x254, "\xc9\x94", "\xc6\x86", "\xc6\x86"},
{0x256, "\xc9\x96", "\xc6\x89", "\xc6\x89"},
{0x257, "\xc9\x97", "\xc6\x8a", "\xc6\x8a"},
{0x259, "\xc9\x99", "\xc6\x8f", "\xc6\x8f"},
{0x25b, "\xc9\x9b", "\xc6\x90", "\xc6\x90"},
{0x260, "\xc9\xa0", "\xc6\x93", "\xc6\x93"},
{0x263, "\xc9\xa3", "\xc6\x94", "\xc6\x94"},
{0x265, "\xc9\xa5", "\xea\x9e\x8d", "\xea\x9e\x8d"},
{0x268, "\xc9\xa8", "\xc6\x97", "\xc6\x97"},
{0x269, "\xc9\xa9", "\xc6\x96", "\xc6\x96"},
{0x26b, "\xc9\xab", "\xe2\xb1\xa2", "\xe2\xb1\xa2"},
{0x26f, "\xc9\xaf", "\xc6\x9c", "\xc6\x9c"},
{0x271, "\xc9\xb1", "\xe2\xb1\xae", "\xe2\xb1\xae"},
{0x272, "\xc9\xb2", "\xc6\x9d", "\xc6\x9d"},
{0x275, "\xc9\xb5", "\xc6\x9f", "\xc6\x9f"},
{0x27d, "\xc9\xbd", "\xe2\xb1\xa4", "\xe2\xb1\xa4"},
{0x280, "\xca\x80", "\xc6\xa6", "\xc6\xa6"},
{0x283, "\xca\x83", "\xc6\xa9", "\xc6\xa9"},
{0x288, "\xca\x88", "\xc6\xae", "\xc6\xae"},
{0x289, "\xca\x89", "\xc9\x84", "\xc9\x84"},
{0x28a, "\xca\x8a", "\xc6\xb1", "\xc6\xb1"},
{0x28b, "\xca\x8b", "\xc6\xb2", "\xc6\xb2"},
{0x28c, "\xca\x8c", "\xc9\x85", "\xc9\x85"},
{0x292, "\xca\x92", "\xc6\xb7", "\xc6\xb7"},
{0x345, "\xcd\x85", "\xce\x99", "\xce\x99"},
{0x370, "\xcd\xb1", "\xcd\xb0", "\xcd\xb0"},
{0x371, "\xcd\xb1", "\xcd\xb0", "\xcd\xb0"},
{0x372, "\xcd\xb3", "\xcd\xb2", "\xcd\xb2"},
{0x373, "\xcd\xb3", "\xcd\xb2", "\xcd\xb2"},
{0x376, "\xcd\xb7", "\xcd\xb6", "\xcd\xb6"},
{0x377, "\xcd\xb7", "\xcd\xb6", "\xcd\xb6"},
{0x37b, "\xcd\xbb", "\xcf\xbd", "\xcf\xbd"},
{0x37c, "\xcd\xbc", "\xcf\xbe", "\xcf\xbe"},
{0x37d, "\xcd\xbd", "\xcf\xbf", "\xcf\xbf"},
{0x386, "\xce\xac", "\xce\x86", "\xce\x86"},
{0x388, "\xce\xad", "\xce\x88", "\xce\x88"},
{0x389, "\xce\xae", "\xce\x89", "\xce\x89"},
{0x38a, "\xce\xaf", "\xce\x8a", "\xce\x8a"},
{0x38c, "\xcf\x8c", "\xce\x8c", "\xce\x8c"},
{0x38e, "\xcf\x8d", "\xce\x8e", "\xce\x8e"},
{0x38f, "\xcf\x8e", "\xce\x8f", "\xce\x8f"},
{0x390, "\xce\x90", "\xce\x99\xcc\x88\xcc\x81", "\xce\x99\xcc\x88\xcc\x81"},
{0x391, "\xce\xb1", "\xce\x91", "\xce\x91"},
{0x392, "\xce\xb2", "\xce\x92", "\xce\x92"},
{0x393, "\xce\xb3", "\xce\x93", "\xce\x93"},
{0x394, "\xce\xb4", "\xce\x94", "\xce\x94"},
{0x395, "\xce\xb5", "\xce\x95", "\xce\x95"},
{0x396, "\xce\xb6", "\xce\x96", "\xce\x96"},
{0x397, "\xce\xb7", "\xce\x97", "\xce\x97"},
{0x398, "\xce\xb8", "\xce\x98", "\xce\x98"},
{0x399, "\xce\xb9", "\xce\x99", "\xce\x99"},
{0x39a, "\xce\xba", "\xce\x9a", "\xce\x9a"},
{0x39b, "\xce\xbb", "\xce\x9b", "\xce\x9b"},
{0x39c, "\xce\xbc", "\xce\x9c", "\xce\x9c"},
{0x39d, "\xce\xbd", "\xce\x9d", "\xce\x9d"},
{0x39e, "\xce\xbe", "\xce\x9e", "\xce\x9e"},
{0x39f, "\xce\xbf", "\xce\x9f", "\xce\x9f"},
{0x3a0, "\xcf\x80", "\xce\xa0", "\xce\xa0"},
{0x3a1, "\xcf\x81", "\xce\xa1", "\xce\xa1"},
{0x3a3, "\xcf\x83", "\xce\xa3", "\xce\xa3"},
{0x3a4, "\xcf\x84", "\xce\xa4", "\xce\xa4"},
{0x3a5, "\xcf\x85", "\xce\xa5", "\xce\xa5"},
{0x3a6, "\xcf\x86", "\xce\xa6", "\xce\xa6"},
{0x3a7, "\xcf\x87", "\xce\xa7", "\xce\xa7"},
{0x3a8, "\xcf\x88", "\xce\xa8", "\xce\xa8"},
{0x3a9, "\xcf\x89", "\xce\xa9", "\xce\xa9"},
{0x3aa, "\xcf\x8a", "\xce\xaa", "\xce\xaa"},
{0x3ab, "\xcf\x8b", "\xce\xab", "\xce\xab"},
{0x3ac, "\xce\xac", "\xce\x86", "\xce\x86"},
{0x3ad, "\xce\xad", "\xce\x88", "\xce\x88"},
{0x3ae, "\xce\xae", "\xce\x89", "\xce\x89"},
{0x3af, "\xce\xaf", "\xce\x8a", "\xce\x8a"},
{0x3b0, "\xce\xb0", "\xce\xa5\xcc\x88\xcc\x81", "\xce\xa5\xcc\x88\xcc\x81"},
{0x3b1, "\xce\xb1", "\xce\x91", "\xce\x91"},
{0x3b2, "\xce\xb2", "\xce\x92", "\xce\x92"},
{0x3b3, "\xce\xb3", "\xce\x93", "\xce\x93"},
{0x3b4, "\xce\xb4", "\xce\x94", "\xce\x94"},
{0x3b5, "\xce\xb5", "\xce\x95", "\xce\x95"},
{0x3b6, "\xce\xb6", "\xce\x96", "\xce\x96"},
{0x3b7, "\xce\xb7", "\xce\x97", "\xce\x97"},
{0x3b8, "\xce\xb8", "\xce\x98", "\xce\x98"},
{0x3b9, "\xce\xb9", "\xce\x99", "\xce\x99"},
{0x3ba, "\xce\xba", "\xce\x9a", "\xce\x9a"},
{0x3bb, "\xce\xbb", "\xce\x9b", "\xce\x9b"},
{0x3bc, "\xce\xbc", "\xce\x9c", "\xce\x9c"},
{0x3bd, "\xce\xbd", "\xce\x9d", "\xce\x9d"},
{0x3be, "\xce\xbe", "\xce\x9e", "\xce\x9e"},
{0x3bf, "\xce\xbf", "\xce\x9f", "\xce\x9f"},
{0x3c0, "\xcf\x80", "\xce\xa0", "\xce\xa0"},
{0x3c1, "\xcf\x81", "\xce\xa1", "\xce\xa1"},
{0x3c2, "\xcf\x82", "\xce\xa3", "\xce\xa3"},
{0x3c3, "\xcf\x83", "\xce\xa3", "\xce\xa3"},
{0x3c4, "\xcf\x84", "\xce\xa4", "\xce\xa4"},
{0x3c5, "\xcf\x85", "\xce\xa5", "\xce\xa5"},
{0x3c6, "\xcf\x86", "\xce\xa6", "\xce\xa6"},
{0x3c7, "\xcf\x87", "\xce\xa7", "\xce\xa7"},
{0x3c8, "\xcf\x88", "\xce\xa8", "\xce\xa8"},
{0x3c9, "\xcf\x89", "\xce\xa9", "\xce\xa9"},
{0x3ca, "\xcf\x8a", "\xce\xaa", "\xce\xaa"},
{0x3cb, "\xcf\x8b", "\xce\xab", "\xce\xab"},
{0x3cc, "\xcf\x8c", "\xce\x8c", "\xce\x8c"},
{0x3cd, "\xcf\x8d", "\xce\x8e", "\xce\x8e"},
{0x3ce, "\xcf\x8e", "\xce\x8f", "\xce\x8f"},
{0x3cf, "\xcf\x97", "\xcf\x8f", "\xcf\x8f"},
{0x3d0, "\xcf\x90", "\xce\x92", "\xce\x92"},
{0x3d1, "\xcf\x91", "\xce\x98", "\xce\x98"},
{0x3d5, "\xcf\x95", "\xce\xa6", "\xce\xa6"},
{0x3d6, "\xcf\x96", "\xce\xa0", "\xce\xa0"},
{0x3d7, "\xcf\x97", "\xcf\x8f", "\xcf\x8f"},
{0x3d8, "\xcf\x99", "\xcf\x98", "\xcf\x98"},
{0x3d9, "\xcf\x99", "\xcf\x98", "\xcf\x98"},
{0x3da, "\xcf\x9b", "\xcf\x9a", "\xcf\x9a"},
{0x3db, "\xcf\x9b", "\xcf\x9a", "\xcf\x9a"},
{0x3dc, "\xcf\x9d", "\xcf\x9c", "\xcf\x9c"},
{0x3dd, "\xcf\x9d", "\xcf\x9c", "\xcf\x9c"},
{0x3de, "\xcf\x9f", "\xcf\x9e", "\xcf\x9e"},
{0x3df, "\xcf\x9f", "\xcf\x9e", "\xcf\x9e"},
{0x3e0, "\xcf\xa1", "\xcf\xa0", "\xcf\xa0"},
{0x3e1, "\xcf\xa1", "\xcf\xa0", "\xcf\xa0"},
{0x3e2, "\xcf\xa3", "\xcf\xa2", "\xcf\xa2"},
{0x3e3, "\xcf\xa3", "\xcf\xa2", "\xcf\xa2"},
{0x3e4, "\xcf\xa5", "\xcf\xa4", "\xcf\xa4"},
{0x3e5, "\xcf\xa5", "\xcf\xa4", "\xcf\xa4"},
{0x3e6, "\xcf\xa7", "\xcf\xa6", "\xcf\xa6"},
{0x3e7, "\xcf\xa7", "\xcf\xa6", "\xcf\xa6"},
{0x3e8, "\xcf\xa9", "\xcf\xa8", "\xcf\xa8"},
{0x3e9, "\xcf\xa9", "\xcf\xa8", "\xcf\xa8"},
{0x3ea, "\xcf\xab", "\xcf\xaa", "\xcf\xaa"},
{0x3eb, "\xcf\xab", "\xcf\xaa", "\xcf\xaa"},
{0x3ec, "\xcf\xad", "\xcf\xac", "\xcf\xac"},
{0x3ed, "\xcf\xad", "\xcf\xac", "\xcf\xac"},
{0x3ee, "\xcf\xaf", "\xcf\xae", "\xcf\xae"},
{0x3ef, "\xcf\xaf", "\xcf\xae", "\xcf\xae"},
{0x3f0, "\xcf\xb0", "\xce\x9a", "\xce\x9a"},
{0x3f1, "\xcf\xb1", "\xce\xa1", "\xce\xa1"},
{0x3f2, "\xcf\xb2", "\xcf\xb9", "\xcf\xb9"},
{0x3f4, "\xce\xb8", "\xcf\xb4", "\xcf\xb4"},
{0x3f5, "\xcf\xb5", "\xce\x95", "\xce\x95"},
{0x3f7, "\xcf\xb8", "\xcf\xb7", "\xcf\xb7"},
{0x3f8, "\xcf\xb8", "\xcf\xb7", "\xcf\xb7"},
{0x3f9, "\xcf\xb2", "\xcf\xb9", "\xcf\xb9"},
{0x3fa, "\xcf\xbb", "\xcf\xba", "\xcf\xba"},
{0x3fb, "\xcf\xbb", "\xcf\xba", "\xcf\xba"},
{0x3fd, "\xcd\xbb", "\xcf\xbd", "\xcf\xbd"},
{0x3fe, "\xcd\xbc", "\xcf\xbe", "\xcf\xbe"},
{0x3ff, "\xcd\xbd", "\xcf\xbf", "\xcf\xbf"},
{0x400, "\xd1\x90", "\xd0\x80", "\xd0\x80"},
{0x401, "\xd1\x91", "\xd0\x81", "\xd0\x81"},
{0x402, "\xd1\x92", "\xd0\x82", "\xd0\x82"},
{0x403, "\xd1\x93", "\xd0\x83", "\xd0\x83"},
{0x404, "\xd1\x94", "\xd0\x84", "\xd0\x84"},
{0x405, "\xd1\x95", "\xd0\x85", "\xd0\x85"},
{0x406, "\xd1\x96", "\xd0\x86", "\xd0\x86"},
{0x407, "\xd1\x97", "\xd0\x87", "\xd0\x87"},
{0x408, "\xd1\x98", "\xd0\x88", "\xd0\x88"},
{0x409, "\xd1\x99", "\xd0\x89", "\xd0\x89"},
{0x40a, "\xd1\x9a", "\xd0\x8a", "\xd0\x8a"},
{0x40b, "\xd1\x9b", "\xd0\x8b", "\xd0\x8b"},
{0x40c, "\xd1\x9c", "\xd0\x8c", "\xd0\x8c"},
{0x40d, "\xd1\x9d", "\xd0\x8d", "\xd0\x8d"},
{0x40e, "\xd1\x9e", "\xd0\x8e", "\xd0\x8e"},
{0x40f, "\xd1\x9f", "\xd0\x8f", "\xd0\x8f"},
{0x410, "\xd0\xb0", "\xd0\x90", "\xd0\x90"},
{0x411, "\xd0\xb1", "\xd0\x91", "\xd0\x91"},
{0x412, "\xd0\xb2", "\xd0\x92", "\xd0\x92"},
{0x413, "\xd0\xb3", "\xd0\x93", "\xd0\x93"},
{0x414, "\xd0\xb4", "\xd0\x94", "\xd0\x94"},
{0x415, "\xd0\xb5", "\xd0\x95", "\xd0\x95"},
{0x416, "\xd0\xb6", "\xd0\x96", "\xd0\x96"},
{0x417, "\xd0\xb7", "\xd0\x97", "\xd0\x97"},
{0x418, "\xd0\xb8", "\xd0\x98", "\xd0\x98"},
{0x419, "\xd0\xb9", "\xd0\x99", "\xd0\x99"},
{0x41a, "\xd0\xba", "\xd0\x9a", "\xd0\x9a"},
{0x41b, "\xd0\xbb", "\xd0\x9b", "\xd0\x9b"},
{0x41c, "\xd0\xbc", "\xd0\x9c", "\xd0\x9c"},
{0x41d, "\xd0\xbd", "\xd0\x9d", "\xd0\x9d"},
{0x41e, "\xd0\xbe", "\xd0\x9e", "\xd0\x9e"},
{0x41f, "\xd0\xbf", "\xd0\x9f", "\xd0\x9f"},
{0x420, "\xd1\x80", "\xd0\xa0", "\xd0\xa0"},
{0x421, "\xd1\x81", "\xd0\xa1", "\xd0\xa1"},
{0x422, "\xd1\x82", "\xd0\xa2", "\xd0\xa2"},
{0x423, "\xd1\x83", "\xd0\xa3", "\xd0\xa3"},
{0x424, "\xd1\x84", "\xd0\xa4", "\xd0\xa4"},
{0x425, "\xd1\x85", "\xd0\xa5", "\xd0\xa5"},
{0x426, "\xd1\x86", "\xd0\xa6", "\xd0\xa6"},
{0x427, "\xd1\x87", "\xd0\xa7", "\xd0\xa7"},
{0x428, "\xd1\x88", "\xd0\xa8", "\xd0\xa8"},
{0x429, "\xd1\x89", "\xd0\xa9", "\xd0\xa9"},
{0x42a, "\xd1\x8a", "\xd0\xaa", "\xd0\xaa"},
{0x42b, "\xd1\x8b", "\xd0\xab", "\xd0\xab"},
{0x42c, "\xd1\x8c", "\xd0\xac", "\xd0\xac"},
{0x42d, "\xd1\x8d", "\xd0\xad", "\xd0\xad"},
{0x42e, "\xd1\x8e", "\xd0\xae", "\xd0\xae"},
{0x42f, "\xd1\x8f", "\xd0\xaf", "\xd0\xaf"},
{0x430, "\xd0\xb0", "\xd0\x90", "\xd0\x90"},
{0x431, "\xd0\xb1", "\xd0\x91", "\xd0\x91"},
{0x432, "\xd0\xb2", "\xd0\x92", "\xd0\x92"},
{0x433, "\xd0\xb3", "\xd0\x93", "\xd0\x93"},
{0x434, "\xd0\xb4", "\xd0\x94", "\xd0\x94"},
{0x435, "\xd0\xb5", "\xd0\x95", "\xd0\x95"},
{0x436, "\xd0\xb6", "\xd0\x96", "\xd0\x96"},
{0x437, "\xd0\xb7", "\xd0\x97", "\xd0\x97"},
{0x438, "\xd0\xb8", "\xd0\x98", "\xd0\x98"},
{0x439, "\xd0\xb9", "\xd0\x99", "\xd0\x99"},
{0x43a, "\xd0\xba", "\xd0\x9a", "\xd0\x9a"},
{0x43b, "\xd0\xbb", "\xd0\x9b", "\xd0\x9b"},
{0x43c, "\xd0\xbc", "\xd0\x9c", "\xd0\x9c"},
{0x43d, "\xd0\xbd", "\xd0\x9d", "\xd0\x9d"},
{0x43e, "\xd0\xbe", "\xd0\x9e", "\xd0\x9e"},
{0x43f, "\xd0\xbf", "\xd0\x9f", "\xd0\x9f"},
{0x440, "\xd1\x80", "\xd0\xa0", "\xd0\xa0"},
{0x441, "\xd1\x81", "\xd0\xa1", "\xd0\xa1"},
{0x442, "\xd1\x82", "\xd0\xa2", "\xd0\xa2"},
{0x443, "\xd1\x83", "\xd0\xa3", "\xd0\xa3"},
{0x444, "\xd1\x84", "\xd0\xa4", "\xd0\xa4"},
{0x445, "\xd1\x85", "\xd0\xa5", "\xd0\xa5"},
{0x446, "\xd1\x86", "\xd0\xa6", "\xd0\xa6"},
{0x447, "\xd1\x87", "\xd0\xa7", "\xd0\xa7"},
{0x448, "\xd1\x88", "\xd0\xa8", "\xd0\xa8"},
{0x449, "\xd1\x89", "\xd0\xa9", "\xd0\xa9"},
{0x44a, "\xd1\x8a", "\xd0\xaa", "\xd0\xaa"},
{0x44b, "\xd1\x8b", "\xd0\xab", "\xd0\xab"},
{0x44c, "\xd1\x8c", "\xd0\xac", "\xd0\xac"},
{0x44d, "\xd1\x8d", "\xd0\xad", "\xd0\xad"},
{0x44e, "\xd1\x8e", "\xd0\xae", "\xd0\xae"},
{0x44f, "\xd1\x8f", "\xd0\xaf", "\xd0\xaf"},
{0x450, "\xd1\x90", "\xd0\x80", "\xd0\x80"},
{0x451, "\xd1\x91", "\xd0\x81", "\xd0\x81"},
{0x452, "\xd1\x92", "\xd0\x82", "\xd0\x82"},
{0x453, "\xd1\x93", "\xd0\x83", "\xd0\x83"},
{0x454, "\xd1\x94", "\xd0\x84", "\xd0\x84"},
{0x455, "\xd1\x95", "\xd0\x85", "\xd0\x85"},
{0x456, "\xd1\x96", "\xd0\x86", "\xd0\x86"},
{0x457, "\xd1\x97", "\xd0\x87", "\xd0\x87"},
{0x458, "\xd1\x98", "\xd0\x88", "\xd0\x88"},
{0x459, "\xd1\x99", "\xd0\x89", "\xd0\x89"},
{0x45a, "\xd1\x9a", "\xd0\x8a", "\xd0\x8a"},
{0x45b, "\xd1\x9b", "\xd0\x8b", "\xd0\x8b"},
{0x45c, "\xd1\x9c", "\xd0\x8c", "\xd0\x8c"},
{0x45d, "\xd1\x9d", "\xd0\x8d", "\xd0\x8d"},
{0x45e, "\xd1\x9e", "\xd0\x8e", "\xd0\x8e"},
{0x45f, "\xd1\x9f", "\xd0\x8f", "\xd0\x8f"},
{0x460, "\xd1\xa1", "\xd1\xa0", "\xd1\xa0"},
{0x461, "\xd1\xa1", "\xd1\xa0", "\xd1\xa0"},
{0x462, "\xd1\xa3", "\xd1\xa2", "\xd1\xa2"},
{0x463, "\xd1\xa3", "\xd1\xa2", "\xd1\xa2"},
{0x464, "\xd1\xa5", "\xd1\xa4", "\xd1\xa4"},
{0x465, "\xd1\xa5", "\xd1\xa4", "\xd1\xa4"},
{0x466, "\xd1\xa7", "\xd1\xa6", "\xd1\xa6"},
{0x467, "\xd1\xa7", "\xd1\xa6", "\xd1\xa6"},
{0x468, "\xd1\xa9", "\xd1\xa8", "\xd1\xa8"},
{0x469, "\xd1\xa9", "\xd1\xa8", "\xd1\xa8"},
{0x46a, "\xd1\xab", "\xd1\xaa", "\xd1\xaa"},
{0x46b, "\xd1\xab", "\xd1\xaa", "\xd1\xaa"},
{0x46c, "\xd1\xad", "\xd1\xac", "\xd1\xac"},
{0x46d, "\xd1\xad", "\xd1\xac", "\xd1\xac"},
{0x46e, "\xd1\xaf", "\xd1\xae", "\xd1\xae"},
{0x46f, "\xd1\xaf", "\xd1\xae", "\xd1\xae"},
{0x470, "\xd1\xb1", "\xd1\xb0", "\xd1\xb0"},
{0x471, "\xd1\xb1", "\xd1\xb0", "\xd1\xb0"},
{0x472, "\xd1\xb3", "\xd1\xb2", "\xd1\xb2"},
{0x473, "\xd1\xb3", "\xd1\xb2", "\xd1\xb2"},
{0x474, "\xd1\xb5", "\xd1\xb4", "\xd1\xb4"},
{0x475, "\xd1\xb5", "\xd1\xb4", "\xd1\xb4"},
{0x476, "\xd1\xb7", "\xd1\xb6", "\xd1\xb6"},
{0x477, "\xd1\xb7", "\xd1\xb6", "\xd1\xb6"},
{0x478, "\xd1\xb9", "\xd1\xb8", "\xd1\xb8"},
{0x479, "\xd1\xb9", "\xd1\xb8", "\xd1\xb8"},
{0x47a, "\xd1\xbb", "\xd1\xba", "\xd1\xba"},
{0x47b, "\xd1\xbb", "\xd1\xba", "\xd1\xba"},
{0x47c, "\xd1\xbd", "\xd1\xbc", "\xd1\xbc"},
{0x47d, "\xd1\xbd", "\xd1\xbc", "\xd1\xbc"},
{0x47e, "\xd1\xbf", "\xd1\xbe", "\xd1\xbe"},
{0x47f, "\xd1\xbf", "\xd1\xbe", "\xd1\xbe"},
{0x480, "\xd2\x81", "\xd2\x80", "\xd2\x80"},
{0x481, "\xd2\x81", "\xd2\x80", "\xd2\x80"},
{0x48a, "\xd2\x8b", "\xd2\x8a", "\xd2\x8a"},
{0x48b, "\xd2\x8b", "\xd2\x8a", "\xd2\x8a"},
{0x48c, "\xd2\x8d", "\xd2\x8c", "\xd2\x8c"},
{0x48d, "\xd2\x8d", "\xd2\x8c", "\xd2\x8c"},
{0x48e, "\xd2\x8f", "\xd2\x8e", "\xd2\x8e"},
{0x48f, "\xd2\x8f", "\xd2\x8e", "\xd2\x8e"},
{0x490, "\xd2\x91", "\xd2\x90", "\xd2\x90"},
{0x491, "\xd2\x91", "\xd2\x90", "\xd2\x90"},
{0x492, "\xd2\x93", "\xd2\x92", "\xd2\x92"},
{0x493, "\xd2\x93", "\xd2\x92", "\xd2\x92"},
{0x494, "\xd2\x95", "\xd2\x94", "\xd2\x94"},
{0x495, "\xd2\x95", "\xd2\x94", "\xd2\x94"},
{0x496, "\xd2\x97", "\xd2\x96", "\xd2\x96"},
{0x497, "\xd2\x97", "\xd2\x96", "\xd2\x96"},
{0x498, "\xd2\x99", "\xd2\x98", "\xd2\x98"},
{0x499, "\xd2\x99", "\xd2\x98", "\xd2\x98"},
{0x49a, "\xd2\x9b", "\xd2\x9a", "\xd2\x9a"},
{0x49b, "\xd2\x9b", "\xd2\x9a", "\xd2\x9a"},
{0x49c, "\xd2\x9d", "\xd2\x9c", "\xd2\x9c"},
{0x49d, "\xd2\x9d", "\xd2\x9c", "\xd2\x9c"},
{0x49e, "\xd2\x9f", "\xd2\x9e", "\xd2\x9e"},
{0x49f, "\xd2\x9f", "\xd2\x9e", "\xd2\x9e"},
{0x4a0, "\xd2\xa1", "\xd2\xa0", "\xd2\xa0"},
{0x4a1, "\xd2\xa1", "\xd2\xa0", "\xd2\xa0"},
{0x4a2, "\xd2\xa3", "\xd2\xa2", "\xd2\xa2"},
{0x4a3, "\xd2\xa3", "\xd2\xa2", "\xd2\xa2"},
{0x4a4, "\xd2\xa5", "\xd2\xa4", "\xd2\xa4"},
{0x4a5, "\xd2\xa5", "\xd2\xa4", "\xd2\xa4"},
{0x4a6, "\xd2\xa7", "\xd2\xa6", "\xd2\xa6"},
{0x4a7, "\xd2\xa7", "\xd2\xa6", "\xd2\xa6"},
{0x4a8, "\xd2\xa9", "\xd2\xa8", "\xd2\xa8"},
{0x4a9, "\xd2\xa9", "\xd2\xa8", "\xd2\xa8"},
{0x4aa, "\xd2\xab", "\xd2\xaa", "\xd2\xaa"},
{0x4ab, "\xd2\xab", "\xd2\xaa", "\xd2\xaa"},
{0x4ac, "\xd2\xad", "\xd2\xac", "\xd2\xac"},
{0x4ad, "\xd2\xad", "\xd2\xac", "\xd2\xac"},
{0x4ae, "\xd2\xaf", "\xd2\xae", "\xd2\xae"},
{0x4af, "\xd2\xaf", "\xd2\xae", "\xd2\xae"},
{0x4b0, "\xd2\xb1", "\xd2\xb0", "\xd2\xb0"},
{0x4b1, "\xd2\xb1", "\xd2\xb0", "\xd2\xb0"},
{0x4b2, "\xd2\xb3", "\xd2\xb2", "\xd2\xb2"},
{0x4b3, "\xd2\xb3", "\xd2\xb2", "\xd2\xb2"},
{0x4b4, "\xd2\xb5", "\xd2\xb4", "\xd2\xb4"},
{0x4b5, "\xd2\xb5", "\xd2\xb4", "\xd2\xb4"},
{0x4b6, "\xd2\xb7", "\xd2\xb6", "\xd2\xb6"},
{0x4b7, "\xd2\xb7", "\xd2\xb6", "\xd2\xb6"},
{0x4b8, "\xd2\xb9", "\xd2\xb8", "\xd2\xb8"},
{0x4b9, "\xd2\xb9", "\xd2\xb8", "\xd2\xb8"},
{0x4ba, "\xd2\xbb", "\xd2\xba", "\xd2\xba"},
{0x4bb, "\xd2\xbb", "\xd2\xba", "\xd2\xba"},
{0x4bc, "\xd2\xbd", "\xd2\xbc", "\xd2\xbc"},
{0x4bd, "\xd2\xbd", "\xd2\xbc", "\xd2\xbc"},
{0x4be, "\xd2\xbf", "\xd2\xbe", "\xd2\xbe"},
{0x4bf, "\xd2\xbf", "\xd2\xbe", "\xd2\xbe"},
{0x4c0, "\xd3\x8f", "\xd3\x80", "\xd3\x80"},
{0x4c1, "\xd3\x82", "\xd3\x81", "\xd3\x81"},
{0x4c2, "\xd3\x82", "\xd3\x81", "\xd3\x81"},
{0x4c3, "\xd3\x84", "\xd3\x83", "\xd3\x83"},
{0x4c4, "\xd3\x84", "\xd3\x83", "\xd3\x83"},
{0x4c5, "\xd3\x86", "\xd3\x85", "\xd3\x85"},
{0x4c6, "\xd3\x86", "\xd3\x85", "\xd3\x85"},
{0x4c7, "\xd3\x88", "\xd3\x87", "\xd3\x87"},
{0x4c8, "\xd3\x88", "\xd3\x87", "\xd3\x87"},
{0x4c9, "\xd3\x8a", "\xd3\x89", "\xd3\x89"},
{0x4ca, "\xd3\x8a", "\xd3\x89", "\xd3\x89"},
{0x4cb, "\xd3\x8c", "\xd3\x8b", "\xd3\x8b"},
{0x4cc, "\xd3\x8c", "\xd3\x8b", "\xd3\x8b"},
{0x4cd, "\xd3\x8e", "\xd3\x8d", "\xd3\x8d"},
{0x4ce, "\xd3\x8e", "\xd3\x8d", "\xd3\x8d"},
{0x4cf, "\xd3\x8f", "\xd3\x80", "\xd3\x80"},
{0x4d0, "\xd3\x91", "\xd3\x90", "\xd3\x90"},
{0x4d1, "\xd3\x91", "\xd3\x90", "\xd3\x90"},
{0x4d2, "\xd3\x93", "\xd3\x92", "\xd3\x92"},
{0x4d3, "\xd3\x93", "\xd3\x92", "\xd3\x92"},
{0x4d4, "\xd3\x95", "\xd3\x94", "\xd3\x94"},
{0x4d5, "\xd3\x95", "\xd3\x94", "\xd3\x94"},
{0x4d6, "\xd3\x97", "\xd3\x96", "\xd3\x96"},
{0x4d7, "\xd3\x97", "\xd3\x96", "\xd3\x96"},
{0x4d8, "\xd3\x99", "\xd3\x98", "\xd3\x98"},
{0x4d9, "\xd3\x99", "\xd3\x98", "\xd3\x98"},
{0x4da, "\xd3\x9b", "\xd3\x9a", "\xd3\x9a"},
{0x4db, "\xd3\x9b", "\xd3\x9a", "\xd3\x9a"},
{0x4dc, "\xd3\x9d", "\xd3\x9c", "\xd3\x9c"},
{0x4dd, "\xd3\x9d", "\xd3\x9c", "\xd3\x9c"},
{0x4de, "\xd3\x9f", "\xd3\x9e", "\xd3\x9e"},
{0x4df, "\xd3\x9f", "\xd3\x9e", "\xd3\x9e"},
{0x4e0, "\xd3\xa1", "\xd3\xa0", "\xd3\xa0"},
{0x4e1, "\xd3\xa1", "\xd3\xa0", "\xd3\xa0"},
{0x4e2, "\xd3\xa3", "\xd3\xa2", "\xd3\xa2"},
{0x4e3, "\xd3\xa3", "\xd3\xa2", "\xd3\xa2"},
{0x4e4, "\xd3\xa5", "\xd3\xa4", "\xd3\xa4"},
{0x4e5, "\xd3\xa5", "\xd3\xa4", "\xd3\xa4"},
{0x4e6, "\xd3\xa7", "\xd3\xa6", "\xd3\xa6"},
{0x4e7, "\xd3\xa7", "\xd3\xa6", "\xd3\xa6"},
{0x4e8, "\xd3\xa9", "\xd3\xa8", "\xd3\xa8"},
{0x4e9, "\xd3\xa9", "\xd3\xa8", "\xd3\xa8"},
{0x4ea, "\xd3\xab", "\xd3\xaa", "\xd3\xaa"},
{0x4eb, "\xd3\xab", "\xd3\xaa", "\xd3\xaa"},
{0x4ec, "\xd3\xad", "\xd3\xac", "\xd3\xac"},
{0x4ed, "\xd3\xad", "\xd3\xac", "\xd3\xac"},
{0x4ee, "\xd3\xaf", "\xd3\xae", "\xd3\xae"},
{0x4ef, "\xd3\xaf", "\xd3\xae", "\xd3\xae"},
{0x4f0, "\xd3\xb1", "\xd3\xb0", "\xd3\xb0"},
{0x4f1, "\xd3\xb1", "\xd3\xb0", "\xd3\xb0"},
{0x4f2, "\xd3\xb3", "\xd3\xb2", "\xd3\xb2"},
{0x4f3, "\xd3\xb3", "\xd3\xb2", "\xd3\xb2"},
{0x4f4, "\xd3\xb5", "\xd3\xb4", "\xd3\xb4"},
{0x4f5, "\xd3\xb5", "\xd3\xb4", "\xd3\xb4"},
{0x4f6, "\xd3\xb7", "\xd3\xb6", "\xd3\xb6"},
{0x4f7, "\xd3\xb7", "\xd3\xb6", "\xd3\xb6"},
{0x4f8, "\xd3\xb9", "\xd3\xb8", "\xd3\xb8"},
{0x4f9, "\xd3\xb9", "\xd3\xb8", "\xd3\xb8"},
{0x4fa, "\xd3\xbb", "\xd3\xba", "\xd3\xba"},
{0x4fb, "\xd3\xbb", "\xd3\xba", "\xd3\xba"},
{0x4fc, "\xd3\xbd", "\xd3\xbc", "\xd3\xbc"},
{0x4fd, "\xd3\xbd", "\xd3\xbc", "\xd3\xbc"},
{0x4fe, "\xd3\xbf", "\xd3\xbe", "\xd3\xbe"},
{0x4ff, "\xd3\xbf", "\xd3\xbe", "\xd3\xbe"},
{0x500, "\xd4\x81", "\xd4\x80", "\xd4\x80"},
{0x501, "\xd4\x81", "\xd4\x80", "\xd4\x80"},
{0x502, "\xd4\x83", "\xd4\x82", "\xd4\x82"},
{0x503, "\xd4\x83", "\xd4\x82", "\xd4\x82"},
{0x504, "\xd4\x85", "\xd4\x84", "\xd4\x84"},
{0x505, "\xd4\x85", "\xd4\x84", "\xd4\x84"},
{0x506, "\xd4\x87", "\xd4\x86", "\xd4\x86"},
{0x507, "\xd4\x87", "\xd4\x86", "\xd4\x86"},
{0x508, "\xd4\x89", "\xd4\x88", "\xd4\x88"},
{0x509, "\xd4\x89", "\xd4\x88", "\xd4\x88"},
{0x50a, "\xd4\x8b", "\xd4\x8a", "\xd4\x8a"},
{0x50b, "\xd4\x8b", "\xd4\x8a", "\xd4\x8a"},
{0x50c, "\xd4\x8d", "\xd4\x8c", "\xd4\x8c"},
{0x50d, "\xd4\x8d", "\xd4\x8c", "\xd4\x8c"},
{0x50e, "\xd4\x8f", "\xd4\x8e", "\xd4\x8e"},
{0x50f, "\xd4\x8f", "\xd4\x8e", "\xd4\x8e"},
{0x510, "\xd4\x91", "\xd4\x90", "\xd4\x90"},
{0x511, "\xd4\x91", "\xd4\x90", "\xd4\x90"},
{0x512, "\xd4\x93", "\xd4\x92", "\xd4\x92"},
{0x513, "\xd4\x93", "\xd4\x92", "\xd4\x92"},
{0x514, "\xd4\x95", "\xd4\x94", "\xd4\x94"},
{0x515, "\xd4\x95", "\xd4\x94", "\xd4\x94"},
{0x516, "\xd4\x97", "\xd4\x96", "\xd4\x96"},
{0x517, "\xd4\x97", "\xd4\x96", "\xd4\x96"},
{0x518, "\xd4\x99", "\xd4\x98", "\xd4\x98"},
{0x519, "\xd4\x99", "\xd4\x98", "\xd4\x98"},
{0x51a, "\xd4\x9b", "\xd4\x9a", "\xd4\x9a"},
{0x51b, "\xd4\x9b", "\xd4\x9a", "\xd4\x9a"},
{0x51c, "\xd4\x9d", "\xd4\x9c", "\xd4\x9c"},
{0x51d, "\xd4\x9d", "\xd4\x9c", "\xd4\x9c"},
{0x51e, "\xd4\x9f", "\xd4\x9e", "\xd4\x9e"},
{0x51f, "\xd4\x9f", "\xd4\x9e", "\xd4\x9e"},
{0x520, "\xd4\xa1", "\xd4\xa0", "\xd4\xa0"},
{0x521, "\xd4\xa1", "\xd4\xa0", "\xd4\xa0"},
{0x522, "\xd4\xa3", "\xd4\xa2", "\xd4\xa2"},
{0x523, "\xd4\xa3", "\xd4\xa2", "\xd4\xa2"},
{0x524, "\xd4\xa5", "\xd4\xa4", "\xd4\xa4"},
{0x525, "\xd4\xa5", "\xd4\xa4", "\xd4\xa4"},
{0x526, "\xd4\xa7", "\xd4\xa6", "\xd4\xa6"},
{0x527, "\xd4\xa7", "\xd4\xa6", "\xd4\xa6"},
{0x531, "\xd5\xa1", "\xd4\xb1", "\xd4\xb1"},
{0x532, "\xd5\xa2", "\xd4\xb2", "\xd4\xb2"},
{0x533, "\xd5\xa3", "\xd4\xb3", "\xd4\xb3"},
{0x534, "\xd5\xa4", "\xd4\xb4", "\xd4\xb4"},
{0x535, "\xd5\xa5", "\xd4\xb5", "\xd4\xb5"},
{0x536, "\xd5\xa6", "\xd4\xb6", "\xd4\xb6"},
{0x537, "\xd5\xa7", "\xd4\xb7", "\xd4\xb7"},
{0x538, "\xd5\xa8", "\xd4\xb8", "\xd4\xb8"},
{0x539, "\xd5\xa9", "\xd4\xb9", "\xd4\xb9"},
{0x53a, "\xd5\xaa", "\xd4\xba", "\xd4\xba"},
{0x53b, "\xd5\xab", "\xd4\xbb", "\xd4\xbb"},
{0x53c, "\xd5\xac", "\xd4\xbc", "\xd4\xbc"},
{0x53d, "\xd5\xad", "\xd4\xbd", "\xd4\xbd"},
{0x53e, "\xd5\xae", "\xd4\xbe", "\xd4\xbe"},
{0x53f, "\xd5\xaf", "\xd4\xbf", "\xd4\xbf"},
{0x540, "\xd5\xb0", "\xd5\x80", "\xd5\x80"},
{0x541, "\xd5\xb1", "\xd5\x81", "\xd5\x81"},
{0x542, "\xd5\xb2", "\xd5\x82", "\xd5\x82"},
{0x543, "\xd5\xb3", "\xd5\x83", "\xd5\x83"},
{0x544, "\xd5\xb4", "\xd5\x84", "\xd5\x84"},
{0x545, "\xd5\xb5", "\xd5\x85", "\xd5\x85"},
{0x546, "\xd5\xb6", "\xd5\x86", "\xd5\x86"},
{0x547, "\xd5\xb7", "\xd5\x87", "\xd5\x87"},
{0x548, "\xd5\xb8", "\xd5\x88", "\xd5\x88"},
{0x549, "\xd5\xb9", "\xd5\x89", "\xd5\x89"},
{0x54a, "\xd5\xba", "\xd5\x8a", "\xd5\x8a"},
{0x54b, "\xd5\xbb", "\xd5\x8b", "\xd5\x8b"},
{0x54c, "\xd5\xbc", "\xd5\x8c", "\xd5\x8c"},
{0x54d, "\xd5\xbd", "\xd5\x8d", "\xd5\x8d"},
{0x54e, "\xd5\xbe", "\xd5\x8e", "\xd5\x8e"},
{0x54f, "\xd5\xbf", "\xd5\x8f", "\xd5\x8f"},
{0x550, "\xd6\x80", "\xd5\x90", "\xd5\x90"},
{0x551, "\xd6\x81", "\xd5\x91", "\xd5\x91"},
{0x552, "\xd6\x82", "\xd5\x92", "\xd5\x92"},
{0x553, "\xd6\x83", "\xd5\x93", "\xd5\x93"},
{0x554, "\xd6\x84", "\xd5\x94", "\xd5\x94"},
{0x555, "\xd6\x85", "\xd5\x95", "\xd5\x95"},
{0x556, "\xd6\x86", "\xd5\x96", "\xd5\x96"},
{0x561, "\xd5\xa1", "\xd4\xb1", "\xd4\xb1"},
{0x562, "\xd5\xa2", "\xd4\xb2", "\xd4\xb2"},
{0x563, "\xd5\xa3", "\xd4\xb3", "\xd4\xb3"},
{0x564, "\xd5\xa4", "\xd4\xb4", "\xd4\xb4"},
{0x565, "\xd5\xa5", "\xd4\xb5", "\xd4\xb5"},
{0x566, "\xd5\xa6", "\xd4\xb6", "\xd4\xb6"},
{0x567, "\xd5\xa7", "\xd4\xb7", "\xd4\xb7"},
{0x568, "\xd5\xa8", "\xd4\xb8", "\xd4\xb8"},
{0x569, "\xd5\xa9", "\xd4\xb9", "\xd4\xb9"},
{0x56a, "\xd5\xaa", "\xd4\xba", "\xd4\xba"},
{0x56b, "\xd5\xab", "\xd4\xbb", "\xd4\xbb"},
{0x56c, "\xd5\xac", "\xd4\xbc", "\xd4\xbc"},
{0x56d, "\xd5\xad", "\xd4\xbd", "\xd4\xbd"},
{0x56e, "\xd5\xae", "\xd4\xbe", "\xd4\xbe"},
{0x56f, "\xd5\xaf", "\xd4\xbf", "\xd4\xbf"},
{0x570, "\xd5\xb0", "\xd5\x80", "\xd5\x80"},
{0x571, "\xd5\xb1", "\xd5\x81", "\xd5\x81"},
{0x572, "\xd5\xb2", "\xd5\x82", "\xd5\x82"},
{0x573, "\xd5\xb3", "\xd5\x83", "\xd5\x83"},
{0x574, "\xd5\xb4", "\xd5\x84", "\xd5\x84"},
{0x575, "\xd5\xb5", "\xd5\x85", "\xd5\x85"},
{0x576, "\xd5\xb6", "\xd5\x86", "\xd5\x86"},
{0x577, "\xd5\xb7", "\xd5\x87", "\xd5\x87"},
{0x578, "\xd5\xb8", "\xd5\x88", "\xd5\x88"},
{0x579, "\xd5\xb9", "\xd5\x89", "\xd5\x89"},
{0x57a, "\xd5\xba", "\xd5\x8a", "\xd5\x8a"},
{0x57b, "\xd5\xbb", "\xd5\x8b", "\xd5\x8b"},
{0x57c, "\xd5\xbc", "\xd5\x8c", "\xd5\x8c"},
{0x57d, "\xd5\xbd", "\xd5\x8d", "\xd5\x8d"},
{0x57e, "\xd5\xbe", "\xd5\x8e", "\xd5\x8e"},
{0x57f, "\xd5\xbf", "\xd5\x8f", "\xd5\x8f"},
{0x580, "\xd6\x80", "\xd5\x90", "\xd5\x90"},
{0x581, "\xd6\x81", "\xd5\x91", "\xd5\x91"},
{0x582, "\xd6\x82", "\xd5\x92", "\xd5\x92"},
{0x583, "\xd6\x83", "\xd5\x93", "\xd5\x93"},
{0x584, "\xd6\x84", "\xd5\x94", "\xd5\x94"},
{0x585, "\xd6\x85", "\xd5\x95", "\xd5\x95"},
{0x586, "\xd6\x86", "\xd5\x96", "\xd5\x96"},
{0x587, "\xd6\x87", "\xd4\xb5\xd5\x92", "\xd4\xb5\xd6\x82"},
{0x10a0, "\xe2\xb4\x80", "\xe1\x82\xa0", "\xe1\x82\xa0"},
{0x10a1, "\xe2\xb4\x81", "\xe1\x82\xa1", "\xe1\x82\xa1"},
{0x10a2, "\xe2\xb4\x82", "\xe1\x82\xa2", "\xe1\x82\xa2"},
{0x10a3, "\xe2\xb4\x83", "\xe1\x82\xa3", "\xe1\x82\xa3"},
{0x10a4, "\xe2\xb4\x84", "\xe1\x82\xa4", "\xe1\x82\xa4"},
{0x10a5, "\xe2\xb4\x85", "\xe1\x82\xa5", "\xe1\x82\xa5"},
{0x10a6, "\xe2\xb4\x86", "\xe1\x82\xa6", "\xe1\x82\xa6"},
{0x10a7, "\xe2\xb4\x87", "\xe1\x82\xa7", "\xe1\x82\xa7"},
{0x10a8, "\xe2\xb4\x88", "\xe1\x82\xa8", "\xe1\x82\xa8"},
{0x10a9, "\xe2\xb4\x89", "\xe1\x82\xa9", "\xe1\x82\xa9"},
{0x10aa, "\xe2\xb4\x8a", "\xe1\x82\xaa", "\xe1\x82\xaa"},
{0x10ab, "\xe2\xb4\x8b", "\xe1\x82\xab", "\xe1\x82\xab"},
{0x10ac, "\xe2\xb4\x8c", "\xe1\x82\xac", "\xe1\x82\xac"},
{0x10ad, "\xe2\xb4\x8d", "\xe1\x82\xad", "\xe1\x82\xad"},
{0x10ae, "\xe2\xb4\x8e", "\xe1\x82\xae", "\xe1\x82\xae"},
{0x10af, "\xe2\xb4\x8f", "\xe1\x82\xaf", "\xe1\x82\xaf"},
{0x10b0, "\xe2\xb4\x90", "\xe1\x82\xb0", "\xe1\x82\xb0"},
{0x10b1, "\xe2\xb4\x91", "\xe1\x82\xb1", "\xe1\x82\xb1"},
{0x10b2, "\xe2\xb4\x92", "\xe1\x82\xb2", "\xe1\x82\xb2"},
{0x10b3, "\xe2\xb4\x93", "\xe1\x82\xb3", "\xe1\x82\xb3"},
{0x10b4, "\xe2\xb4\x94", "\xe1\x82\xb4", "\xe1\x82\xb4"},
{0x10b5, "\xe2\xb4\x95", "\xe1\x82\xb5", "\xe1\x82\xb5"},
{0x10b6, "\xe2\xb4\x96", "\xe1\x82\xb6", "\xe1\x82\xb6"},
{0x10b7, "\xe2\xb4\x97", "\xe1\x82\xb7", "\xe1\x82\xb7"},
{0x10b8, "\xe2\xb4\x98", "\xe1\x82\xb8", "\xe1\x82\xb8"},
{0x10b9, "\xe2\xb4\x99", "\xe1\x82\xb9", "\xe1\x82\xb9"},
{0x10ba, "\xe2\xb4\x9a", "\xe1\x82\xba", "\xe1\x82\xba"},
{0x10bb, "\xe2\xb4\x9b", "\xe1\x82\xbb", "\xe1\x82\xbb"},
{0x10bc, "\xe2\xb4\x9c", "\xe1\x82\xbc", "\xe1\x82\xbc"},
{0x10bd, "\xe2\xb4\x9d", "\xe1\x82\xbd", "\xe1\x82\xbd"},
{0x10be, "\xe2\xb4\x9e", "\xe1\x82\xbe", "\xe1\x82\xbe"},
{0x10bf, "\xe2\xb4\x9f", "\xe1\x82\xbf", "\xe1\x82\xbf"},
{0x10c0, "\xe2\xb4\xa0", "\xe1\x83\x80", "\xe1\x83\x80"},
{0x10c1, "\xe2\xb4\xa1", "\xe1\x83\x81", "\xe1\x83\x81"},
{0x10c2, "\xe2\xb4\xa2", "\xe1\x83\x82", "\xe1\x83\x82"},
{0x10c3, "\xe2\xb4\xa3", "\xe1\x83\x83", "\xe1\x83\x83"},
{0x10c4, "\xe2\xb4\xa4", "\xe1\x83\x84", "\xe1\x83\x84"},
{0x10c5, "\xe2\xb4\xa5", "\xe1\x83\x85", "\xe1\x83\x85"},
{0x1d79, "\xe1\xb5\xb9", "\xea\x9d\xbd", "\xea\x9d\xbd"},
{0x1d7d, "\xe1\xb5\xbd", "\xe2\xb1\xa3", "\xe2\xb1\xa3"},
{0x1e00, "\xe1\xb8\x81", "\xe1\xb8\x80", "\xe1\xb8\x80"},
{0x1e01, "\xe1\xb8\x81", "\xe1\xb8\x80", "\xe1\xb8\x80"},
{0x1e02, "\xe1\xb8\x83", "\xe1\xb8\x82", "\xe1\xb8\x82"},
{0x1e03, "\xe1\xb8\x83", "\xe1\xb8\x82", "\xe1\xb8\x82"},
{0x1e04, "\xe1\xb8\x85", "\xe1\xb8\x84", "\xe1\xb8\x84"},
{0x1e05, "\xe1\xb8\x85", "\xe1\xb8\x84", "\xe1\xb8\x84"},
{0x1e06, "\xe1\xb8\x87", "\xe1\xb8\x86", "\xe1\xb8\x86"},
{0x1e07, "\xe1\xb8\x87", "\xe1\xb8\x86", "\xe1\xb8\x86"},
{0x1e08, "\xe1\xb8\x89", "\xe1\xb8\x88", "\xe1\xb8\x88"},
{0x1e09, "\xe1\xb8\x89", "\xe1\xb8\x88", "\xe1\xb8\x88"},
{0x1e0a, "\xe1\xb8\x8b", "\xe1\xb8\x8a", "\xe1\xb8\x8a"},
{0x1e0b, "\xe1\xb8\x8b", "\xe1\xb8\x8a", "\xe1\xb8\x8a"},
{0x1e0c, "\xe1\xb8\x8d", "\xe1\xb8\x8c", "\xe1\xb8\x8c"},
{0x1e0d, "\xe1\xb8\x8d", "\xe1\xb8\x8c", "\xe1\xb8\x8c"},
{0x1e0e, "\xe1\xb8\x8f", "\xe1\xb8\x8e", "\xe1\xb8\x8e"},
{0x1e0f, "\xe1\xb8\x8f", "\xe1\xb8\x8e", "\xe1\xb8\x8e"},
{0x1e10, "\xe1\xb8\x91", "\xe1\xb8\x90", "\xe1\xb8\x90"},
{0x1e11, "\xe1\xb8\x91", "\xe1\xb8\x90", "\xe1\xb8\x90"},
{0x1e12, "\xe1\xb8\x93", "\xe1\xb8\x92", "\xe1\xb8\x92"},
{0x1e13, "\xe1\xb8\x93", "\xe1\xb8\x92", "\xe1\xb8\x92"},
{0x1e14, "\xe1\xb8\x95", "\xe1\xb8\x94", "\xe1\xb8\x94"},
{0x1e15, "\xe1\xb8\x95", "\xe1\xb8\x94", "\xe1\xb8\x94"},
{0x1e16, "\xe1\xb8\x97", "\xe1\xb8\x96", "\xe1\xb8\x96"},
{0x1e17, "\xe1\xb8\x97", "\xe1\xb8\x96", "\xe1\xb8\x96"},
{0x1e18, "\xe1\xb8\x99", "\xe1\xb8\x98", "\xe1\xb8\x98"},
{0x1e19, "\xe1\xb8\x99", "\xe1\xb8\x98", "\xe1\xb8\x98"},
{0x1e1a, "\xe1\xb8\x9b", "\xe1\xb8\x9a", "\xe1\xb8\x9a"},
{0x1e1b, "\xe1\xb8\x9b", "\xe1\xb8\x9a", "\xe1\xb8\x9a"},
{0x1e1c, "\xe1\xb8\x9d", "\xe1\xb8\x9c", "\xe1\xb8\x9c"},
{0x1e1d, "\xe1\xb8\x9d", "\xe1\xb8\x9c", "\xe1\xb8\x9c"},
{0x1e1e, "\xe1\xb8\x9f", "\xe1\xb8\x9e", "\xe1\xb8\x9e"},
{0x1e1f, "\xe1\xb8\x9f", "\xe1\xb8\x9e", "\xe1\xb8\x9e"},
{0x1e20, "\xe1\xb8\xa1", "\xe1\xb8\xa0", "\xe1\xb8\xa0"},
{0x1e21, "\xe1\xb8\xa1", "\xe1\xb8\xa0", "\xe1\xb8\xa0"},
{0x1e22, "\xe1\xb8\xa3", "\xe1\xb8\xa2", "\xe1\xb8\xa2"},
{0x1e23, "\xe1\xb8\xa3", "\xe1\xb8\xa2", "\xe1\xb8\xa2"},
{0x1e24, "\xe1\xb8\xa5", "\xe1\xb8\xa4", "\xe1\xb8\xa4"},
{0x1e25, "\xe1\xb8\xa5", "\xe1\xb8\xa4", "\xe1\xb8\xa4"},
{0x1e26, "\xe1\xb8\xa7", "\xe1\xb8\xa6", "\xe1\xb8\xa6"},
{0x1e27, "\xe1\xb8\xa7", "\xe1\xb8\xa6", "\xe1\xb8\xa6"},
{0x1e28, "\xe1\xb8\xa9", "\xe1\xb8\xa8", "\xe1\xb8\xa8"},
{0x1e29, "\xe1\xb8\xa9", "\xe1\xb8\xa8", "\xe1\xb8\xa8"},
{0x1e2a, "\xe1\xb8\xab", "\xe1\xb8\xaa", "\xe1\xb8\xaa"},
{0x1e2b, "\xe1\xb8\xab", "\xe1\xb8\xaa", "\xe1\xb8\xaa"},
{0x1e2c, "\xe1\xb8\xad", "\xe1\xb8\xac", "\xe1\xb8\xac"},
{0x1e2d, "\xe1\xb8\xad", "\xe1\xb8\xac", "\xe1\xb8\xac"},
{0x1e2e, "\xe1\xb8\xaf", "\xe1\xb8\xae", "\xe1\xb8\xae"},
{0x1e2f, "\xe1\xb8\xaf", "\xe1\xb8\xae", "\xe1\xb8\xae"},
{0x1e30, "\xe1\xb8\xb1", "\xe1\xb8\xb0", "\xe1\xb8\xb0"},
{0x1e31, "\xe1\xb8\xb1", "\xe1\xb8\xb0", "\xe1\xb8\xb0"},
{0x1e32, "\xe1\xb8\xb3", "\xe1\xb8\xb2", "\xe1\xb8\xb2"},
{0x1e33, "\xe1\xb8\xb3", "\xe1\xb8\xb2", "\xe1\xb8\xb2"},
{0x1e34, "\xe1\xb8\xb5", "\xe1\xb8\xb4", "\xe1\xb8\xb4"},
{0x1e35, "\xe1\xb8\xb5", "\xe1\xb8\xb4", "\xe1\xb8\xb4"},
{0x1e36, "\xe1\xb8\xb7", "\xe1\xb8\xb6", "\xe1\xb8\xb6"},
{0x1e37, "\xe1\xb8\xb7", "\xe1\xb8\xb6", "\xe1\xb8\xb6"},
{0x1e38, "\xe1\xb8\xb9", "\xe1\xb8\xb8", "\xe1\xb8\xb8"},
{0x1e39, "\xe1\xb8\xb9", "\xe1\xb8\xb8", "\xe1\xb8\xb8"},
{0x1e3a, "\xe1\xb8\xbb", "\xe1\xb8\xba", "\xe1\xb8\xba"},
{0x1e3b, "\xe1\xb8\xbb", "\xe1\xb8\xba", "\xe1\xb8\xba"},
{0x1e3c, "\xe1\xb8\xbd", "\xe1\xb8\xbc", "\xe1\xb8\xbc"},
{0x1e3d, "\xe1\xb8\xbd", "\xe1\xb8\xbc", "\xe1\xb8\xbc"},
{0x1e3e, "\xe1\xb8\xbf", "\xe1\xb8\xbe", "\xe1\xb8\xbe"},
{0x1e3f, "\xe1\xb8\xbf", "\xe1\xb8\xbe", "\xe1\xb8\xbe"},
{0x1e40, "\xe1\xb9\x81", "\xe1\xb9\x80", "\xe1\xb9\x80"},
{0x1e41, "\xe1\xb9\x81", "\xe1\xb9\x80", "\xe1\xb9\x80"},
{0x1e42, "\xe1\xb9\x83", "\xe1\xb9\x82", "\xe1\xb9\x82"},
{0x1e43, "\xe1\xb9\x83", "\xe1\xb9\x82", "\xe1\xb9\x82"},
{0x1e44, "\xe1\xb9\x85", "\xe1\xb9\x84", "\xe1\xb9\x84"},
{0x1e45, "\xe1\xb9\x85", "\xe1\xb9\x84", "\xe1\xb9\x84"},
{0x1e46, "\xe1\xb9\x87", "\xe1\xb9\x86", "\xe1\xb9\x86"},
{0x1e47, "\xe1\xb9\x87", "\xe1\xb9\x86", "\xe1\xb9\x86"},
{0x1e48, "\xe1\xb9\x89", "\xe1\xb9\x88", "\xe1\xb9\x88"},
{0x1e49, "\xe1\xb9\x89", "\xe1\xb9\x88", "\xe1\xb9\x88"},
{0x1e4a, "\xe1\xb9\x8b", "\xe1\xb9\x8a", "\xe1\xb9\x8a"},
{0x1e4b, "\xe1\xb9\x8b", "\xe1\xb9\x8a", "\xe1\xb9\x8a"},
{0x1e4c, "\xe1\xb9\x8d", "\xe1\xb9\x8c", "\xe1\xb9\x8c"},
{0x1e4d, "\xe1\xb9\x8d", "\xe1\xb9\x8c", "\xe1\xb9\x8c"},
{0x1e4e, "\xe1\xb9\x8f", "\xe1\xb9\x8e", "\xe1\xb9\x8e"},
{0x1e4f, "\xe1\xb9\x8f", "\xe1\xb9\x8e", "\xe1\xb9\x8e"},
{0x1e50, "\xe1\xb9\x91", "\xe1\xb9\x90", "\xe1\xb9\x90"},
{0x1e51, "\xe1\xb9\x91", "\xe1\xb9\x90", "\xe1\xb9\x90"},
{0x1e52, "\xe1\xb9\x93", "\xe1\xb9\x92", "\xe1\xb9\x92"},
{0x1e53, "\xe1\xb9\x93", "\xe1\xb9\x92", "\xe1\xb9\x92"},
{0x1e54, "\xe1\xb9\x95", "\xe1\xb9\x94", "\xe1\xb9\x94"},
{0x1e55, "\xe1\xb9\x95", "\xe1\xb9\x94", "\xe1\xb9\x94"},
{0x1e56, "\xe1\xb9\x97", "\xe1\xb9\x96", "\xe1\xb9\x96"},
{0x1e57, "\xe1\xb9\x97", "\xe1\xb9\x96", "\xe1\xb9\x96"},
{0x1e58, "\xe1\xb9\x99", "\xe1\xb9\x98", "\xe1\xb9\x98"},
{0x1e59, "\xe1\xb9\x99", "\xe1\xb9\x98", "\xe1\xb9\x98"},
{0x1e5a, "\xe1\xb9\x9b", "\xe1\xb9\x9a", "\xe1\xb9\x9a"},
{0x1e5b, "\xe1\xb9\x9b", "\xe1\xb9\x9a", "\xe1\xb9\x9a"},
{0x1e5c, "\xe1\xb9\x9d", "\xe1\xb9\x9c", "\xe1\xb9\x9c"},
{0x1e5d, "\xe1\xb9\x9d", "\xe1\xb9\x9c", "\xe1\xb9\x9c"},
{0x1e5e, "\xe1\xb9\x9f", "\xe1\xb9\x9e", "\xe1\xb9\x9e"},
{0x1e5f, "\xe1\xb9\x9f", "\xe1\xb9\x9e", "\xe1\xb9\x9e"},
{0x1e60, "\xe1\xb9\xa1", "\xe1\xb9\xa0", "\xe1\xb9\xa0"},
{0x1e61, "\xe1\xb9\xa1", "\xe1\xb9\xa0", "\xe1\xb9\xa0"},
{0x1e62, "\xe1\xb9\xa3", "\xe1\xb9\xa2", "\xe1\xb9\xa2"},
{0x1e63, "\xe1\xb9\xa3", "\xe1\xb9\xa2", "\xe1\xb9\xa2"},
{0x1e64, "\xe1\xb9\xa5", "\xe1\xb9\xa4", "\xe1\xb9\xa4"},
{0x1e65, "\xe1\xb9\xa5", "\xe1\xb9\xa4", "\xe1\xb9\xa4"},
{0x1e66, "\xe1\xb9\xa7", "\xe1\xb9\xa6", "\xe1\xb9\xa6"},
{0x1e67, "\xe1\xb9\xa7", "\xe1\xb9\xa6", "\xe1\xb9\xa6"},
{0x1e68, "\xe1\xb9\xa9", "\xe1\xb9\xa8", "\xe1\xb9\xa8"},
{0x1e69, "\xe1\xb9\xa9", "\xe1\xb9\xa8", "\xe1\xb9\xa8"},
{0x1e6a, "\xe1\xb9\xab", "\xe1\xb9\xaa", "\xe1\xb9\xaa"},
{0x1e6b, "\xe1\xb9\xab", "\xe1\xb9\xaa", "\xe1\xb9\xaa"},
{0x1e6c, "\xe1\xb9\xad", "\xe1\xb9\xac", "\xe1\xb9\xac"},
{0x1e6d, "\xe1\xb9\xad", "\xe1\xb9\xac", "\xe1\xb9\xac"},
{0x1e6e, "\xe1\xb9\xaf", "\xe1\xb9\xae", "\xe1\xb9\xae"},
{0x1e6f, "\xe1\xb9\xaf", "\xe1\xb9\xae", "\xe1\xb9\xae"},
{0x1e70, "\xe1\xb9\xb1", "\xe1\xb9\xb0", "\xe1\xb9\xb0"},
{0x1e71, "\xe1\xb9\xb1", "\xe1\xb9\xb0", "\xe1\xb9\xb0"},
{0x1e72, "\xe1\xb9\xb3", "\xe1\xb9\xb2", "\xe1\xb9\xb2"},
{0x1e73, "\xe1\xb9\xb3", "\xe1\xb9\xb2", "\xe1\xb9\xb2"},
{0x1e74, "\xe1\xb9\xb5", "\xe1\xb9\xb4", "\xe1\xb9\xb4"},
{0x1e75, "\xe1\xb9\xb5", "\xe1\xb9\xb4", "\xe1\xb9\xb4"},
{0x1e76, "\xe1\xb9\xb7", "\xe1\xb9\xb6", "\xe1\xb9\xb6"},
{0x1e77, "\xe1\xb9\xb7", "\xe1\xb9\xb6", "\xe1\xb9\xb6"},
{0x1e78, "\xe1\xb9\xb9", "\xe1\xb9\xb8", "\xe1\xb9\xb8"},
{0x1e79, "\xe1\xb9\xb9", "\xe1\xb9\xb8", "\xe1\xb9\xb8"},
{0x1e7a, "\xe1\xb9\xbb", "\xe1\xb9\xba", "\xe1\xb9\xba"},
{0x1e7b, "\xe1\xb9\xbb", "\xe1\xb9\xba", "\xe1\xb9\xba"},
{0x1e7c, "\xe1\xb9\xbd", "\xe1\xb9\xbc", "\xe1\xb9\xbc"},
{0x1e7d, "\xe1\xb9\xbd", "\xe1\xb9\xbc", "\xe1\xb9\xbc"},
{0x1e7e, "\xe1\xb9\xbf", "\xe1\xb9\xbe", "\xe1\xb9\xbe"},
{0x1e7f, "\xe1\xb9\xbf", "\xe1\xb9\xbe", "\xe1\xb9\xbe"},
{0x1e80, "\xe1\xba\x81", "\xe1\xba\x80", "\xe1\xba\x80"},
{0x1e81, "\xe1\xba\x81", "\xe1\xba\x80", "\xe1\xba\x80"},
{0x1e82, "\xe1\xba\x83", "\xe1\xba\x82", "\xe1\xba\x82"},
{0x1e83, "\xe1\xba\x83", "\xe1\xba\x82", "\xe1\xba\x82"},
{0x1e84, "\xe1\xba\x85", "\xe1\xba\x84", "\xe1\xba\x84"},
{0x1e85, "\xe1\xba\x85", "\xe1\xba\x84", "\xe1\xba\x84"},
{0x1e86, "\xe1\xba\x87", "\xe1\xba\x86", "\xe1\xba\x86"},
{0x1e87, "\xe1\xba\x87", "\xe1\xba\x86", "\xe1\xba\x86"},
{0x1e88, "\xe1\xba\x89", "\xe1\xba\x88", "\xe1\xba\x88"},
{0x1e89, "\xe1\xba\x89", "\xe1\xba\x88", "\xe1\xba\x88"},
{0x1e8a, "\xe1\xba\x8b", "\xe1\xba\x8a", "\xe1\xba\x8a"},
{0x1e8b, "\xe1\xba\x8b", "\xe1\xba\x8a", "\xe1\xba\x8a"},
{0x1e8c, "\xe1\xba\x8d", "\xe1\xba\x8c", "\xe1\xba\x8c"},
{0x1e8d, "\xe1\xba\x8d", "\xe1\xba\x8c", "\xe1\xba\x8c"},
{0x1e8e, "\xe1\xba\x8f", "\xe1\xba\x8e", "\xe1\xba\x8e"},
{0x1e8f, "\xe1\xba\x8f", "\xe1\xba\x8e", "\xe1\xba\x8e"},
{0x1e90, "\xe1\xba\x91", "\xe1\xba\x90", "\xe1\xba\x90"},
{0x1e91, "\xe1\xba\x91", "\xe1\xba\x90", "\xe1\xba\x90"},
{0x1e92, "\xe1\xba\x93", "\xe1\xba\x92", "\xe1\xba\x92"},
{0x1e93, "\xe1\xba\x93", "\xe1\xba\x92", "\xe1\xba\x92"},
{0x1e94, "\xe1\xba\x95", "\xe1\xba\x94", "\xe1\xba\x94"},
{0x1e95, "\xe1\xba\x95", "\xe1\xba\x94", "\xe1\xba\x94"},
{0x1e96, "\xe1\xba\x96", "\x48\xcc\xb1", "\x48\xcc\xb1"},
{0x1e97, "\xe1\xba\x97", "\x54\xcc\x88", "\x54\xcc\x88"},
{0x1e98, "\xe1\xba\x98", "\x57\xcc\x8a", "\x57\xcc\x8a"},
{0x1e99, "\xe1\xba\x99", "\x59\xcc\x8a", "\x59\xcc\x8a"},
{0x1e9a, "\xe1\xba\x9a", "\x41\xca\xbe", "\x41\xca\xbe"},
{0x1e9b, "\xe1\xba\x9b", "\xe1\xb9\xa0", "\xe1\xb9\xa0"},
{0x1e9e, "\xc3\x9f", "\xe1\xba\x9e", "\xe1\xba\x9e"},
{0x1ea0, "\xe1\xba\xa1", "\xe1\xba\xa0", "\xe1\xba\xa0"},
{0x1ea1, "\xe1\xba\xa1", "\xe1\xba\xa0", "\xe1\xba\xa0"},
{0x1ea2, "\xe1\xba\xa3", "\xe1\xba\xa2", "\xe1\xba\xa2"},
{0x1ea3, "\xe1\xba\xa3", "\xe1\xba\xa2", "\xe1\xba\xa2"},
{0x1ea4, "\xe1\xba\xa5", "\xe1\xba\xa4", "\xe1\xba\xa4"},
{0x1ea5, "\xe1\xba\xa5", "\xe1\xba\xa4", "\xe1\xba\xa4"},
{0x1ea6, "\xe1\xba\xa7", "\xe1\xba\xa6", "\xe1\xba\xa6"},
{0x1ea7, "\xe1\xba\xa7", "\xe1\xba\xa6", "\xe1\xba\xa6"},
{0x1ea8, "\xe1\xba\xa9", "\xe1\xba\xa8", "\xe1\xba\xa8"},
{0x1ea9, "\xe1\xba\xa9", "\xe1\xba\xa8", "\xe1\xba\xa8"},
{0x1eaa, "\xe1\xba\xab", "\xe1\xba\xaa", "\xe1\xba\xaa"},
{0x1eab, "\xe1\xba\xab", "\xe1\xba\xaa", "\xe1\xba\xaa"},
{0x1eac, "\xe1\xba\xad", "\xe1\xba\xac", "\xe1\xba\xac"},
{0x1ead, "\xe1\xba\xad", "\xe1\xba\xac", "\xe1\xba\xac"},
{0x1eae, "\xe1\xba\xaf", "\xe1\xba\xae", "\xe1\xba\xae"},
{0x1eaf, "\xe1\xba\xaf", "\xe1\xba\xae", "\xe1\xba\xae"},
{0x1eb0, "\xe1\xba\xb1", "\xe1\xba\xb0", "\xe1\xba\xb0"},
{0x1eb1, "\xe1\xba\xb1", "\xe1\xba\xb0", "\xe1\xba\xb0"},
{0x1eb2, "\xe1\xba\xb3", "\xe1\xba\xb2", "\xe1\xba\xb2"},
{0x1eb3, "\xe1\xba\xb3", "\xe1\xba\xb2", "\xe1\xba\xb2"},
{0x1eb4, "\xe1\xba\xb5", "\xe1\xba\xb4", "\xe1\xba\xb4"},
{0x1eb5, "\xe1\xba\xb5", "\xe1\xba\xb4", "\xe1\xba\xb4"},
{0x1eb6, "\xe1\xba\xb7", "\xe1\xba\xb6", "\xe1\xba\xb6"},
{0x1eb7, "\xe1\xba\xb7", "\xe1\xba\xb6", "\xe1\xba\xb6"},
{0x1eb8, "\xe1\xba\xb9", "\xe1\xba\xb8", "\xe1\xba\xb8"},
{0x1eb9, "\xe1\xba\xb9", "\xe1\xba\xb8", "\xe1\xba\xb8"},
{0x1eba, "\xe1\xba\xbb", "\xe1\xba\xba", "\xe1\xba\xba"},
{0x1ebb, "\xe1\xba\xbb", "\xe1\xba\xba", "\xe1\xba\xba"},
{0x1ebc, "\xe1\xba\xbd", "\xe1\xba\xbc", "\xe1\xba\xbc"},
{0x1ebd, "\xe1\xba\xbd", "\xe1\xba\xbc", "\xe1\xba\xbc"},
{0x1ebe, "\xe1\xba\xbf", "\xe1\xba\xbe", "\xe1\xba\xbe"},
{0x1ebf, "\xe1\xba\xbf", "\xe1\xba\xbe", "\xe1\xba\xbe"},
{0x1ec0, "\xe1\xbb\x81", "\xe1\xbb\x80", "\xe1\xbb\x80"},
{0x1ec1, "\xe1\xbb\x81", "\xe1\xbb\x80", "\xe1\xbb\x80"},
{0x1ec2, "\xe1\xbb\x83", "\xe1\xbb\x82", "\xe1\xbb\x82"},
{0x1ec3, "\xe1\xbb\x83", "\xe1\xbb\x82", "\xe1\xbb\x82"},
{0x1ec4, "\xe1\xbb\x85", "\xe1\xbb\x84", "\xe1\xbb\x84"},
{0x1ec5, "\xe1\xbb\x85", "\xe1\xbb\x84", "\xe1\xbb\x84"},
{0x1ec6, "\xe1\xbb\x87", "\xe1\xbb\x86", "\xe1\xbb\x86"},
{0x1ec7, "\xe1\xbb\x87", "\xe1\xbb\x86", "\xe1\xbb\x86"},
{0x1ec8, "\xe1\xbb\x89", "\xe1\xbb\x88", "\xe1\xbb\x88"},
{0x1ec9, "\xe1\xbb\x89", "\xe1\xbb\x88", "\xe1\xbb\x88"},
{0x1eca, "\xe1\xbb\x8b", "\xe1\xbb\x8a", "\xe1\xbb\x8a"},
{0x1ecb, "\xe1\xbb\x8b", "\xe1\xbb\x8a", "\xe1\xbb\x8a"},
{0x1ecc, "\xe1\xbb\x8d", "\xe1\xbb\x8c", "\xe1\xbb\x8c"},
{0x1ecd, "\xe1\xbb\x8d", "\xe1\xbb\x8c", "\xe1\xbb\x8c"},
{0x1ece, "\xe1\xbb\x8f", "\xe1\xbb\x8e", "\xe1\xbb\x8e"},
{0x1ecf, "\xe1\xbb\x8f", "\xe1\xbb\x8e", "\xe1\xbb\x8e"},
{0x1ed0, "\xe1\xbb\x91", "\xe1\xbb\x90", "\xe1\xbb\x90"},
{0x1ed1, "\xe1\xbb\x91", "\xe1\xbb\x90", "\xe1\xbb\x90"},
{0x1ed2, "\xe1\xbb\x93", "\xe1\xbb\x92", "\xe1\xbb\x92"},
{0x1ed3, "\xe1\xbb\x93", "\xe1\xbb\x92", "\xe1\xbb\x92"},
{0x1ed4, "\xe1\xbb\x95", "\xe1\xbb\x94", "\xe1\xbb\x94"},
{0x1ed5, "\xe1\xbb\x95", "\xe1\xbb\x94", "\xe1\xbb\x94"},
{0x1ed6, "\xe1\xbb\x97", "\xe1\xbb\x96", "\xe1\xbb\x96"},
{0x1ed7, "\xe1\xbb\x97", "\xe1\xbb\x96", "\xe1\xbb\x96"},
{0x1ed8, "\xe1\xbb\x99", "\xe1\xbb\x98", "\xe1\xbb\x98"},
{0x1ed9, "\xe1\xbb\x99", "\xe1\xbb\x98", "\xe1\xbb\x98"},
{0x1eda, "\xe1\xbb\x9b", "\xe1\xbb\x9a", "\xe1\xbb\x9a"},
{0x1edb, "\xe1\xbb\x9b", "\xe1\xbb\x9a", "\xe1\xbb\x9a"},
{0x1edc, "\xe1\xbb\x9d", "\xe1\xbb\x9c", "\xe1\xbb\x9c"},
{0x1edd, "\xe1\xbb\x9d", "\xe1\xbb\x9c", "\xe1\xbb\x9c"},
{0x1ede, "\xe1\xbb\x9f", "\xe1\xbb\x9e", "\xe1\xbb\x9e"},
{0x1edf, "\xe1\xbb\x9f", "\xe1\xbb\x9e", "\xe1\xbb\x9e"},
{0x1ee0, "\xe1\xbb\xa1", "\xe1\xbb\xa0", "\xe1\xbb\xa0"},
{0x1ee1, "\xe1\xbb\xa1", "\xe1\xbb\xa0", "\xe1\xbb\xa0"},
{0x1ee2, "\xe1\xbb\xa3", "\xe1\xbb\xa2", "\xe1\xbb\xa2"},
{0x1ee3, "\xe1\xbb\xa3", "\xe1\xbb\xa2", "\xe1\xbb\xa2"},
{0x1ee4, "\xe1\xbb\xa5", "\xe1\xbb\xa4", "\xe1\xbb\xa4"},
{0x1ee5, "\xe1\xbb\xa5", "\xe1\xbb\xa4", "\xe1\xbb\xa4"},
{0x1ee6, "\xe1\xbb\xa7", "\xe1\xbb\xa6", "\xe1\xbb\xa6"},
{0x1ee7, "\xe1\xbb\xa7", "\xe1\xbb\xa6", "\xe1\xbb\xa6"},
{0x1ee8, "\xe1\xbb\xa9", "\xe1\xbb\xa8", "\xe1\xbb\xa8"},
{0x1ee9, "\xe1\xbb\xa9", "\xe1\xbb\xa8", "\xe1\xbb\xa8"},
{0x1eea, "\xe1\xbb\xab", "\xe1\xbb\xaa", "\xe1\xbb\xaa"},
{0x1eeb, "\xe1\xbb\xab", "\xe1\xbb\xaa", "\xe1\xbb\xaa"},
{0x1eec, "\xe1\xbb\xad", "\xe1\xbb\xac", "\xe1\xbb\xac"},
{0x1eed, "\xe1\xbb\xad", "\xe1\xbb\xac", "\xe1\xbb\xac"},
{0x1eee, "\xe1\xbb\xaf", "\xe1\xbb\xae", "\xe1\xbb\xae"},
{0x1eef, "\xe1\xbb\xaf", "\xe1\xbb\xae", "\xe1\xbb\xae"},
{0x1ef0, "\xe1\xbb\xb1", "\xe1\xbb\xb0", "\xe1\xbb\xb0"},
{0x1ef1, "\xe1\xbb\xb1", "\xe1\xbb\xb0", "\xe1\xbb\xb0"},
{0x1ef2, "\xe1\xbb\xb3", "\xe1\xbb\xb2", "\xe1\xbb\xb2"},
{0x1ef3, "\xe1\xbb\xb3", "\xe1\xbb\xb2", "\xe1\xbb\xb2"},
{0x1ef4, "\xe1\xbb\xb5", "\xe1\xbb\xb4", "\xe1\xbb\xb4"},
{0x1ef5, "\xe1\xbb\xb5", "\xe1\xbb\xb4", "\xe1\xbb\xb4"},
{0x1ef6, "\xe1\xbb\xb7", "\xe1\xbb\xb6", "\xe1\xbb\xb6"},
{0x1ef7, "\xe1\xbb\xb7", "\xe1\xbb\xb6", "\xe1\xbb\xb6"},
{0x1ef8, "\xe1\xbb\xb9", "\xe1\xbb\xb8", "\xe1\xbb\xb8"},
{0x1ef9, "\xe1\xbb\xb9", "\xe1\xbb\xb8", "\xe1\xbb\xb8"},
{0x1efa, "\xe1\xbb\xbb", "\xe1\xbb\xba", "\xe1\xbb\xba"},
{0x1efb, "\xe1\xbb\xbb", "\xe1\xbb\xba", "\xe1\xbb\xba"},
{0x1efc, "\xe1\xbb\xbd", "\xe1\xbb\xbc", "\xe1\xbb\xbc"},
{0x1efd, "\xe1\xbb\xbd", "\xe1\xbb\xbc", "\xe1\xbb\xbc"},
{0x1efe, "\xe1\xbb\xbf", "\xe1\xbb\xbe", "\xe1\xbb\xbe"},
{0x1eff, "\xe1\xbb\xbf", "\xe1\xbb\xbe", "\xe1\xbb\xbe"},
{0x1f00, "\xe1\xbc\x80", "\xe1\xbc\x88", "\xe1\xbc\x88"},
{0x1f01, "\xe1\xbc\x81", "\xe1\xbc\x89", "\xe1\xbc\x89"},
{0x1f02, "\xe1\xbc\x82", "\xe1\xbc\x8a", "\xe1\xbc\x8a"},
{0x1f03, "\xe1\xbc\x83", "\xe1\xbc\x8b", "\xe1\xbc\x8b"},
{0x1f04, "\xe1\xbc\x84", "\xe1\xbc\x8c", "\xe1\xbc\x8c"},
{0x1f05, "\xe1\xbc\x85", "\xe1\xbc\x8d", "\xe1\xbc\x8d"},
{0x1f06, "\xe1\xbc\x86", "\xe1\xbc\x8e", "\xe1\xbc\x8e"},
{0x1f07, "\xe1\xbc\x87", "\xe1\xbc\x8f", "\xe1\xbc\x8f"},
{0x1f08, "\xe1\xbc\x80", "\xe1\xbc\x88", "\xe1\xbc\x88"},
{0x1f09, "\xe1\xbc\x81", "\xe1\xbc\x89", "\xe1\xbc\x89"},
{0x1f0a, "\xe1\xbc\x82", "\xe1\xbc\x8a", "\xe1\xbc\x8a"},
{0x1f0b, "\xe1\xbc\x83", "\xe1\xbc\x8b", "\xe1\xbc\x8b"},
{0x1f0c, "\xe1\xbc\x84", "\xe1\xbc\x8c", "\xe1\xbc\x8c"},
{0x1f0d, "\xe1\xbc\x85", "\xe1\xbc\x8d", "\xe1\xbc\x8d"},
{0x1f0e, "\xe1\xbc\x86", "\xe1\xbc\x8e", "\xe1\xbc\x8e"},
{0x1f0f, "\xe1\xbc\x87", "\xe1\xbc\x8f", "\xe1\xbc\x8f"},
{0x1f10, "\xe1\xbc\x90", "\xe1\xbc\x98", "\xe1\xbc\x98"},
{0x1f11, "\xe1\xbc\x91", "\xe1\xbc\x99", "\xe1\xbc\x99"},
{0x1f12, "\xe1\xbc\x92", "\xe1\xbc\x9a", "\xe1\xbc\x9a"},
{0x1f13, "\xe1\xbc\x93", "\xe1\xbc\x9b", "\xe1\xbc\x9b"},
{0x1f14, "\xe1\xbc\x94", "\xe1\xbc\x9c", "\xe1\xbc\x9c"},
{0x1f15, "\xe1\xbc\x95", "\xe1\xbc\x9d", "\xe1\xbc\x9d"},
{0x1f18, "\xe1\xbc\x90", "\xe1\xbc\x98", "\xe1\xbc\x98"},
{0x1f19, "\xe1\xbc\x91", "\xe1\xbc\x99", "\xe1\xbc\x99"},
{0x1f1a, "\xe1\xbc\x92", "\xe1\xbc\x9a", "\xe1\xbc\x9a"},
{0x1f1b, "\xe1\xbc\x93", "\xe1\xbc\x9b", "\xe1\xbc\x9b"},
{0x1f1c, "\xe1\xbc\x94", "\xe1\xbc\x9c", "\xe1\xbc\x9c"},
{0x1f1d, "\xe1\xbc\x95", "\xe1\xbc\x9d", "\xe1\xbc\x9d"},
{0x1f20, "\xe1\xbc\xa0", "\xe1\xbc\xa8", "\xe1\xbc\xa8"},
{0x1f21, "\xe1\xbc\xa1", "\xe1\xbc\xa9", "\xe1\xbc\xa9"},
{0x1f22, "\xe1\xbc\xa2", "\xe1\xbc\xaa", "\xe1\xbc\xaa"},
{0x1f23, "\xe1\xbc\xa3", "\xe1\xbc\xab", "\xe1\xbc\xab"},
{0x1f24, "\xe1\xbc\xa4", "\xe1\xbc\xac", "\xe1\xbc\xac"},
{0x1f25, "\xe1\xbc\xa5", "\xe1\xbc\xad", "\xe1\xbc\xad"},
{0x1f26, "\xe1\xbc\xa6", "\xe1\xbc\xae", "\xe1\xbc\xae"},
{0x1f27, "\xe1\xbc\xa7", "\xe1\xbc\xaf", "\xe1\xbc\xaf"},
{0x1f28, "\xe1\xbc\xa0", "\xe1\xbc\xa8", "\xe1\xbc\xa8"},
{0x1f29, "\xe1\xbc\xa1", "\xe1\xbc\xa9", "\xe1\xbc\xa9"},
{0x1f2a, "\xe1\xbc\xa2", "\xe1\xbc\xaa", "\xe1\xbc\xaa"},
{0x1f2b, "\xe1\xbc\xa3", "\xe1\xbc\xab", "\xe1\xbc\xab"},
{0x1f2c, "\xe1\xbc\xa4", "\xe1\xbc\xac", "\xe1\xbc\xac"},
{0x1f2d, "\xe1\xbc\xa5", "\xe1\xbc\xad", "\xe1\xbc\xad"},
{0x1f2e, "\xe1\xbc\xa6", "\xe1\xbc\xae", "\xe1\xbc\xae"},
{0x1f2f, "\xe1\xbc\xa7", "\xe1\xbc\xaf", "\xe1\xbc\xaf"},
{0x1f30, "\xe1\xbc\xb0", "\xe1\xbc\xb8", "\xe1\xbc\xb8"},
{0x1f31, "\xe1\xbc\xb1", "\xe1\xbc\xb9", "\xe1\xbc\xb9"},
{0x1f32, "\xe1\xbc\xb2", "\xe1\xbc\xba", "\xe1\xbc\xba"},
{0x1f33, "\xe1\xbc\xb3", "\xe1\xbc\xbb", "\xe1\xbc\xbb"},
{0x1f34, "\xe1\xbc\xb4", "\xe1\xbc\xbc", "\xe1\xbc\xbc"},
{0x1f35, "\xe1\xbc\xb5", "\xe1\xbc\xbd", "\xe1\xbc\xbd"},
{0x1f36, "\xe1\xbc\xb6", "\xe1\xbc\xbe", "\xe1\xbc\xbe"},
{0x1f37, "\xe1\xbc\xb7", "\xe1\xbc\xbf", "\xe1\xbc\xbf"},
{0x1f38, "\xe1\xbc\xb0", "\xe1\xbc\xb8", "\xe1\xbc\xb8"},
{0x1f39, "\xe1\xbc\xb1", "\xe1\xbc\xb9", "\xe1\xbc\xb9"},
{0x1f3a, "\xe1\xbc\xb2", "\xe1\xbc\xba", "\xe1\xbc\xba"},
{0x1f3b, "\xe1\xbc\xb3", "\xe1\xbc\xbb", "\xe1\xbc\xbb"},
{0x1f3c, "\xe1\xbc\xb4", "\xe1\xbc\xbc", "\xe1\xbc\xbc"},
{0x1f3d, "\xe1\xbc\xb5", "\xe1\xbc\xbd", "\xe1\xbc\xbd"},
{0x1f3e, "\xe1\xbc\xb6", "\xe1\xbc\xbe", "\xe1\xbc\xbe"},
{0x1f3f, "\xe1\xbc\xb7", "\xe1\xbc\xbf", "\xe1\xbc\xbf"},
{0x1f40, "\xe1\xbd\x80", "\xe1\xbd\x88", "\xe1\xbd\x88"},
{0x1f41, "\xe1\xbd\x81", "\xe1\xbd\x89", "\xe1\xbd\x89"},
{0x1f42, "\xe1\xbd\x82", "\xe1\xbd\x8a", "\xe1\xbd\x8a"},
{0x1f43, "\xe1\xbd\x83", "\xe1\xbd\x8b", "\xe1\xbd\x8b"},
{0x1f44, "\xe1\xbd\x84", "\xe1\xbd\x8c", "\xe1\xbd\x8c"},
{0x1f45, "\xe1\xbd\x85", "\xe1\xbd\x8d", "\xe1\xbd\x8d"},
{0x1f48, "\xe1\xbd\x80", "\xe1\xbd\x88", "\xe1\xbd\x88"},
{0x1f49, "\xe1\xbd\x81", "\xe1\xbd\x89", "\xe1\xbd\x89"},
{0x1f4a, "\xe1\xbd\x82", "\xe1\xbd\x8a", "\xe1\xbd\x8a"},
{0x1f4b, "\xe1\xbd\x83", "\xe1\xbd\x8b", "\xe1\xbd\x8b"},
{0x1f4c, "\xe1\xbd\x84", "\xe1\xbd\x8c", "\xe1\xbd\x8c"},
{0x1f4d, "\xe1\xbd\x85", "\xe1\xbd\x8d", "\xe1\xbd\x8d"},
{0x1f50, "\xe1\xbd\x90", "\xce\xa5\xcc\x93", "\xce\xa5\xcc\x93"},
{0x1f51, "\xe1\xbd\x91", "\xe1\xbd\x99", "\xe1\xbd\x99"},
{0x1f52, "\xe1\xbd\x92", "\xce\xa5\xcc\x93\xcc\x80", "\xce\xa5\xcc\x93\xcc\x80"},
{0x1f53, "\xe1\xbd\x93", "\xe1\xbd\x9b", "\xe1\xbd\x9b"},
{0x1f54, "\xe1\xbd\x94", "\xce\xa5\xcc\x93\xcc\x81", "\xce\xa5\xcc\x93\xcc\x81"},
{0x1f55, "\xe1\xbd\x95", "\xe1\xbd\x9d", "\xe1\xbd\x9d"},
{0x1f56, "\xe1\xbd\x96", "\xce\xa5\xcc\x93\xcd\x82", "\xce\xa5\xcc\x93\xcd\x82"},
{0x1f57, "\xe1\xbd\x97", "\xe1\xbd\x9f", "\xe1\xbd\x9f"},
{0x1f59, "\xe1\xbd\x91", "\xe1\xbd\x99", "\xe1\xbd\x99"},
{0x1f5b, "\xe1\xbd\x93", "\xe1\xbd\x9b", "\xe1\xbd\x9b"},
{0x1f5d, "\xe1\xbd\x95", "\xe1\xbd\x9d", "\xe1\xbd\x9d"},
{0x1f5f, "\xe1\xbd\x97", "\xe1\xbd\x9f", "\xe1\xbd\x9f"},
{0x1f60, "\xe1\xbd\xa0", "\xe1\xbd\xa8", "\xe1\xbd\xa8"},
{0x1f61, "\xe1\xbd\xa1", "\xe1\xbd\xa9", "\xe1\xbd\xa9"},
{0x1f62, "\xe1\xbd\xa2", "\xe1\xbd\xaa", "\xe1\xbd\xaa"},
{0x1f63, "\xe1\xbd\xa3", "\xe1\xbd\xab", "\xe1\xbd\xab"},
{0x1f64, "\xe1\xbd\xa4", "\xe1\xbd\xac", "\xe1\xbd\xac"},
{0x1f65, "\xe1\xbd\xa5", "\xe1\xbd\xad", "\xe1\xbd\xad"},
{0x1f66, "\xe1\xbd\xa6", "\xe1\xbd\xae", "\xe1\xbd\xae"},
{0x1f67, "\xe1\xbd\xa7", "\xe1\xbd\xaf", "\xe1\xbd\xaf"},
{0x1f68, "\xe1\xbd\xa0", "\xe1\xbd\xa8", "\xe1\xbd\xa8"},
{0x1f69, "\xe1\xbd\xa1", "\xe1\xbd\xa9", "\xe1\xbd\xa9"},
{0x1f6a, "\xe1\xbd\xa2", "\xe1\xbd\xaa", "\xe1\xbd\xaa"},
{0x1f6b, "\xe1\xbd\xa3", "\xe1\xbd\xab", "\xe1\xbd\xab"},
{0x1f6c, "\xe1\xbd\xa4", "\xe1\xbd\xac", "\xe1\xbd\xac"},
{0x1f6d, "\xe1\xbd\xa5", "\xe1\xbd\xad", "\xe1\xbd\xad"},
{0x1f6e, "\xe1\xbd\xa6", "\xe1\xbd\xae", "\xe1\xbd\xae"},
{0x1f6f, "\xe1\xbd\xa7", "\xe1\xbd\xaf", "\xe1\xbd\xaf"},
{0x1f70, "\xe1\xbd\xb0", "\xe1\xbe\xba", "\xe1\xbe\xba"},
{0x1f71, "\xe1\xbd\xb1", "\xe1\xbe\xbb", "\xe1\xbe\xbb"},
{0x1f72, "\xe1\xbd\xb2", "\xe1\xbf\x88", "\xe1\xbf\x88"},
{0x1f73, "\xe1\xbd\xb3", "\xe1\xbf\x89", "\xe1\xbf\x89"},
{0x1f74, "\xe1\xbd\xb4", "\xe1\xbf\x8a", "\xe1\xbf\x8a"},
{0x1f75, "\xe1\xbd\xb5", "\xe1\xbf\x8b", "\xe1\xbf\x8b"},
{0x1f76, "\xe1\xbd\xb6", "\xe1\xbf\x9a", "\xe1\xbf\x9a"},
{0x1f77, "\xe1\xbd\xb7", "\xe1\xbf\x9b", "\xe1\xbf\x9b"},
{0x1f78, "\xe1\xbd\xb8", "\xe1\xbf\xb8", "\xe1\xbf\xb8"},
{0x1f79, "\xe1\xbd\xb9", "\xe1\xbf\xb9", "\xe1\xbf\xb9"},
{0x1f7a, "\xe1\xbd\xba", "\xe1\xbf\xaa", "\xe1\xbf\xaa"},
{0x1f7b, "\xe1\xbd\xbb", "\xe1\xbf\xab", "\xe1\xbf\xab"},
{0x1f7c, "\xe1\xbd\xbc", "\xe1\xbf\xba", "\xe1\xbf\xba"},
{0x1f7d, "\xe1\xbd\xbd", "\xe1\xbf\xbb", "\xe1\xbf\xbb"},
{0x1f80, "\xe1\xbe\x80", "\xe1\xbc\x88\xce\x99", "\xe1\xbe\x88"},
{0x1f81, "\xe1\xbe\x81", "\xe1\xbc\x89\xce\x99", "\xe1\xbe\x89"},
{0x1f82, "\xe1\xbe\x82", "\xe1\xbc\x8a\xce\x99", "\xe1\xbe\x8a"},
{0x1f83, "\xe1\xbe\x83", "\xe1\xbc\x8b\xce\x99", "\xe1\xbe\x8b"},
{0x1f84, "\xe1\xbe\x84", "\xe1\xbc\x8c\xce\x99", "\xe1\xbe\x8c"},
{0x1f85, "\xe1\xbe\x85", "\xe1\xbc\x8d\xce\x99", "\xe1\xbe\x8d"},
{0x1f86, "\xe1\xbe\x86", "\xe1\xbc\x8e\xce\x99", "\xe1\xbe\x8e"},
{0x1f87, "\xe1\xbe\x87", "\xe1\xbc\x8f\xce\x99", "\xe1\xbe\x8f"},
{0x1f88, "\xe1\xbe\x80", "\xe1\xbc\x88\xce\x99", "\xe1\xbe\x88"},
{0x1f89, "\xe1\xbe\x81", "\xe1\xbc\x89\xce\x99", "\xe1\xbe\x89"},
{0x1f8a, "\xe1\xbe\x82", "\xe1\xbc\x8a\xce\x99", "\xe1\xbe\x8a"},
{0x1f8b, "\xe1\xbe\x83", "\xe1\xbc\x8b\xce\x99", "\xe1\xbe\x8b"},
{0x1f8c, "\xe1\xbe\x84", "\xe1\xbc\x8c\xce\x99", "\xe1\xbe\x8c"},
{0x1f8d, "\xe1\xbe\x85", "\xe1\xbc\x8d\xce\x99", "\xe1\xbe\x8d"},
{0x1f8e, "\xe1\xbe\x86", "\xe1\xbc\x8e\xce\x99", "\xe1\xbe\x8e"},
{0x1f8f, "\xe1\xbe\x87", "\xe1\xbc\x8f\xce\x99", "\xe1\xbe\x8f"},
{0x1f90, "\xe1\xbe\x90", "\xe1\xbc\xa8\xce\x99", "\xe1\xbe\x98"},
{0x1f91, "\xe1\xbe\x91", "\xe1\xbc\xa9\xce\x99", "\xe1\xbe\x99"},
{0x1f92, "\xe1\xbe\x92", "\xe1\xbc\xaa\xce\x99", "\xe1\xbe\x9a"},
{0x1f93, "\xe1\xbe\x93", "\xe1\xbc\xab\xce\x99", "\xe1\xbe\x9b"},
{0x1f94, "\xe1\xbe\x94", "\xe1\xbc\xac\xce\x99", "\xe1\xbe\x9c"},
{0x1f95, "\xe1\xbe\x95", "\xe1\xbc\xad\xce\x99", "\xe1\xbe\x9d"},
{0x1f96, "\xe1\xbe\x96", "\xe1\xbc\xae\xce\x99", "\xe1\xbe\x9e"},
{0x1f97, "\xe1\xbe\x97", "\xe1\xbc\xaf\xce\x99", "\xe1\xbe\x9f"},
{0x1f98, "\xe1\xbe\x90", "\xe1\xbc\xa8\xce\x99", "\xe1\xbe\x98"},
{0x1f99, "\xe1\xbe\x91", "\xe1\xbc\xa9\xce\x99", "\xe1\xbe\x99"},
{0x1f9a, "\xe1\xbe\x92", "\xe1\xbc\xaa\xce\x99", "\xe1\xbe\x9a"},
{0x1f9b, "\xe1\xbe\x93", "\xe1\xbc\xab\xce\x99", "\xe1\xbe\x9b"},
{0x1f9c, "\xe1\xbe\x94", "\xe1\xbc\xac\xce\x99", "\xe1\xbe\x9c"},
{0x1f9d, "\xe1\xbe\x95", "\xe1\xbc\xad\xce\x99", "\xe1\xbe\x9d"},
{0x1f9e, "\xe1\xbe\x96", "\xe1\xbc\xae\xce\x99", "\xe1\xbe\x9e"},
{0x1f9f, "\xe1\xbe\x97", "\xe1\xbc\xaf\xce\x99", "\xe1\xbe\x9f"},
{0x1fa0, "\xe1\xbe\xa0", "\xe1\xbd\xa8\xce\x99", "\xe1\xbe\xa8"},
{0x1fa1, "\xe1\xbe\xa1", "\xe1\xbd\xa9\xce\x99", "\xe1\xbe\xa9"},
{0x1fa2, "\xe1\xbe\xa2", "\xe1\xbd\xaa\xce\x99", "\xe1\xbe\xaa"},
{0x1fa3, "\xe1\xbe\xa3", "\xe1\xbd\xab\xce\x99", "\xe1\xbe\xab"},
{0x1fa4, "\xe1\xbe\xa4", "\xe1\xbd\xac\xce\x99", "\xe1\xbe\xac"},
{0x1fa5, "\xe1\xbe\xa5", "\xe1\xbd\xad\xce\x99", "\xe1\xbe\xad"},
{0x1fa6, "\xe1\xbe\xa6", "\xe1\xbd\xae\xce\x99", "\xe1\xbe\xae"},
{0x1fa7, "\xe1\xbe\xa7", "\xe1\xbd\xaf\xce\x99", "\xe1\xbe\xaf"},
{0x1fa8, "\xe1\xbe\xa0", "\xe1\xbd\xa8\xce\x99", "\xe1\xbe\xa8"},
{0x1fa9, "\xe1\xbe\xa1", "\xe1\xbd\xa9\xce\x99", "\xe1\xbe\xa9"},
{0x1faa, "\xe1\xbe\xa2", "\xe1\xbd\xaa\xce\x99", "\xe1\xbe\xaa"},
{0x1fab, "\xe1\xbe\xa3", "\xe1\xbd\xab\xce\x99", "\xe1\xbe\xab"},
{0x1fac, "\xe1\xbe\xa4", "\xe1\xbd\xac\xce\x99", "\xe1\xbe\xac"},
{0x1fad, "\xe1\xbe\xa5", "\xe1\xbd\xad\xce\x99", "\xe1\xbe\xad"},
{0x1fae, "\xe1\xbe\xa6", "\xe1\xbd\xae\xce\x99", "\xe1\xbe\xae"},
{0x1faf, "\xe1\xbe\xa7", "\xe1\xbd\xaf\xce\x99", "\xe1\xbe\xaf"},
{0x1fb0, "\xe1\xbe\xb0", "\xe1\xbe\xb8", "\xe1\xbe\xb8"},
{0x1fb1, "\xe1\xbe\xb1", "\xe1\xbe\xb9", "\xe1\xbe\xb9"},
{0x1fb2, "\xe1\xbe\xb2", "\xe1\xbe\xba\xce\x99", "\xe1\xbe\xba\xcd\x85"},
{0x1fb3, "\xe1\xbe\xb3", "\xce\x91\xce\x99", "\xe1\xbe\xbc"},
{0x1fb4, "\xe1\xbe\xb4", "\xce\x86\xce\x99", "\xce\x86\xcd\x85"},
{0x1fb6, "\xe1\xbe\xb6", "\xce\x91\xcd\x82", "\xce\x91\xcd\x82"},
{0x1fb7, "\xe1\xbe\xb7", "\xce\x91\xcd\x82\xce\x99", "\xce\x91\xcd\x82\xcd\x85"},
{0x1fb8, "\xe1\xbe\xb0", "\xe1\xbe\xb8", "\xe1\xbe\xb8"},
{0x1fb9, "\xe1\xbe\xb1", "\xe1\xbe\xb9", "\xe1\xbe\xb9"},
{0x1fba, "\xe1\xbd\xb0", "\xe1\xbe\xba", "\xe1\xbe\xba"},
{0x1fbb, "\xe1\xbd\xb1", "\xe1\xbe\xbb", "\xe1\xbe\xbb"},
{0x1fbc, "\xe1\xbe\xb3", "\xce\x91\xce\x99", "\xe1\xbe\xbc"},
{0x1fbe, "\xe1\xbe\xbe", "\xce\x99", "\xce\x99"},
{0x1fc2, "\xe1\xbf\x82", "\xe1\xbf\x8a\xce\x99", "\xe1\xbf\x8a\xcd\x85"},
{0x1fc3, "\xe1\xbf\x83", "\xce\x97\xce\x99", "\xe1\xbf\x8c"},
{0x1fc4, "\xe1\xbf\x84", "\xce\x89\xce\x99", "\xce\x89\xcd\x85"},
{0x1fc6, "\xe1\xbf\x86", "\xce\x97\xcd\x82", "\xce\x97\xcd\x82"},
{0x1fc7, "\xe1\xbf\x87", "\xce\x97\xcd\x82\xce\x99", "\xce\x97\xcd\x82\xcd\x85"},
{0x1fc8, "\xe1\xbd\xb2", "\xe1\xbf\x88", "\xe1\xbf\x88"},
{0x1fc9, "\xe1\xbd\xb3", "\xe1\xbf\x89", "\xe1\xbf\x89"},
{0x1fca, "\xe1\xbd\xb4", "\xe1\xbf\x8a", "\xe1\xbf\x8a"},
{0x1fcb, "\xe1\xbd\xb5", "\xe1\xbf\x8b", "\xe1\xbf\x8b"},
{0x1fcc, "\xe1\xbf\x83", "\xce\x97\xce\x99", "\xe1\xbf\x8c"},
{0x1fd0, "\xe1\xbf\x90", "\xe1\xbf\x98", "\xe1\xbf\x98"},
{0x1fd1, "\xe1\xbf\x91", "\xe1\xbf\x99", "\xe1\xbf\x99"},
{0x1fd2, "\xe1\xbf\x92", "\xce\x99\xcc\x88\xcc\x80", "\xce\x99\xcc\x88\xcc\x80"},
{0x1fd3, "\xe1\xbf\x93", "\xce\x99\xcc\x88\xcc\x81", "\xce\x99\xcc\x88\xcc\x81"},
{0x1fd6, "\xe1\xbf\x96", "\xce\x99\xcd\x82", "\xce\x99\xcd\x82"},
{0x1fd7, "\xe1\xbf\x97", "\xce\x99\xcc\x88\xcd\x82", "\xce\x99\xcc\x88\xcd\x82"},
{0x1fd8, "\xe1\xbf\x90", "\xe1\xbf\x98", "\xe1\xbf\x98"},
{0x1fd9, "\xe1\xbf\x91", "\xe1\xbf\x99", "\xe1\xbf\x99"},
{0x1fda, "\xe1\xbd\xb6", "\xe1\xbf\x9a", "\xe1\xbf\x9a"},
{0x1fdb, "\xe1\xbd\xb7", "\xe1\xbf\x9b", "\xe1\xbf\x9b"},
{0x1fe0, "\xe1\xbf\xa0", "\xe1\xbf\xa8", "\xe1\xbf\xa8"},
{0x1fe1, "\xe1\xbf\xa1", "\xe1\xbf\xa9", "\xe1\xbf\xa9"},
{0x1fe2, "\xe1\xbf\xa2", "\xce\xa5\xcc\x88\xcc\x80", "\xce\xa5\xcc\x88\xcc\x80"},
{0x1fe3, "\xe1\xbf\xa3", "\xce\xa5\xcc\x88\xcc\x81", "\xce\xa5\xcc\x88\xcc\x81"},
{0x1fe4, "\xe1\xbf\xa4", "\xce\xa1\xcc\x93", "\xce\xa1\xcc\x93"},
{0x1fe5, "\xe1\xbf\xa5", "\xe1\xbf\xac", "\xe1\xbf\xac"},
{0x1fe6, "\xe1\xbf\xa6", "\xce\xa5\xcd\x82", "\xce\xa5\xcd\x82"},
{0x1fe7, "\xe1\xbf\xa7", "\xce\xa5\xcc\x88\xcd\x82", "\xce\xa5\xcc\x88\xcd\x82"},
{0x1fe8, "\xe1\xbf\xa0", "\xe1\xbf\xa8", "\xe1\xbf\xa8"},
{0x1fe9, "\xe1\xbf\xa1", "\xe1\xbf\xa9", "\xe1\xbf\xa9"},
{0x1fea, "\xe1\xbd\xba", "\xe1\xbf\xaa", "\xe1\xbf\xaa"},
{0x1feb, "\xe1\xbd\xbb", "\xe1\xbf\xab", "\xe1\xbf\xab"},
{0x1fec, "\xe1\xbf\xa5", "\xe1\xbf\xac", "\xe1\xbf\xac"},
{0x1ff2, "\xe1\xbf\xb2", "\xe1\xbf\xba\xce\x99", "\xe1\xbf\xba\xcd\x85"},
{0x1ff3, "\xe1\xbf\xb3", "\xce\xa9\xce\x99", "\xe1\xbf\xbc"},
{0x1ff4, "\xe1\xbf\xb4", "\xce\x8f\xce\x99", "\xce\x8f\xcd\x85"},
{0x1ff6, "\xe1\xbf\xb6", "\xce\xa9\xcd\x82", "\xce\xa9\xcd\x82"},
{0x1ff7, "\xe1\xbf\xb7", "\xce\xa9\xcd\x82\xce\x99", "\xce\xa9\xcd\x82\xcd\x85"},
{0x1ff8, "\xe1\xbd\xb8", "\xe1\xbf\xb8", "\xe1\xbf\xb8"},
{0x1ff9, "\xe1\xbd\xb9", "\xe1\xbf\xb9", "\xe1\xbf\xb9"},
{0x1ffa, "\xe1\xbd\xbc", "\xe1\xbf\xba", "\xe1\xbf\xba"},
{0x1ffb, "\xe1\xbd\xbd", "\xe1\xbf\xbb", "\xe1\xbf\xbb"},
{0x1ffc, "\xe1\xbf\xb3", "\xce\xa9\xce\x99", "\xe1\xbf\xbc"},
{0x2126, "\xcf\x89", "\xe2\x84\xa6", "\xe2\x84\xa6"},
{0x212a, "\x6b", "\xe2\x84\xaa", "\xe2\x84\xaa"},
{0x212b, "\xc3\xa5", "\xe2\x84\xab", "\xe2\x84\xab"},
{0x2132, "\xe2\x85\x8e", "\xe2\x84\xb2", "\xe2\x84\xb2"},
{0x214e, "\xe2\x85\x8e", "\xe2\x84\xb2", "\xe2\x84\xb2"},
{0x2160, "\xe2\x85\xb0", "\xe2\x85\xa0", "\xe2\x85\xa0"},
{0x2161, "\xe2\x85\xb1", "\xe2\x85\xa1", "\xe2\x85\xa1"},
{0x2162, "\xe2\x85\xb2", "\xe2\x85\xa2", "\xe2\x85\xa2"},
{0x2163, "\xe2\x85\xb3", "\xe2\x85\xa3", "\xe2\x85\xa3"},
{0x2164, "\xe2\x85\xb4", "\xe2\x85\xa4", "\xe2\x85\xa4"},
{0x2165, "\xe2\x85\xb5", "\xe2\x85\xa5", "\xe2\x85\xa5"},
{0x2166, "\xe2\x85\xb6", "\xe2\x85\xa6", "\xe2\x85\xa6"},
{0x2167, "\xe2\x85\xb7", "\xe2\x85\xa7", "\xe2\x85\xa7"},
{0x2168, "\xe2\x85\xb8", "\xe2\x85\xa8", "\xe2\x85\xa8"},
{0x2169, "\xe2\x85\xb9", "\xe2\x85\xa9", "\xe2\x85\xa9"},
{0x216a, "\xe2\x85\xba", "\xe2\x85\xaa", "\xe2\x85\xaa"},
{0x216b, "\xe2\x85\xbb", "\xe2\x85\xab", "\xe2\x85\xab"},
{0x216c, "\xe2\x85\xbc", "\xe2\x85\xac", "\xe2\x85\xac"},
{0x216d, "\xe2\x85\xbd", "\xe2\x85\xad", "\xe2\x85\xad"},
{0x216e, "\xe2\x85\xbe", "\xe2\x85\xae", "\xe2\x85\xae"},
{0x216f, "\xe2\x85\xbf", "\xe2\x85\xaf", "\xe2\x85\xaf"},
{0x2170, "\xe2\x85\xb0", "\xe2\x85\xa0", "\xe2\x85\xa0"},
{0x2171, "\xe2\x85\xb1", "\xe2\x85\xa1", "\xe2\x85\xa1"},
{0x2172, "\xe2\x85\xb2", "\xe2\x85\xa2", "\xe2\x85\xa2"},
{0x2173, "\xe2\x85\xb3", "\xe2\x85\xa3", "\xe2\x85\xa3"},
{0x2174, "\xe2\x85\xb4", "\xe2\x85\xa4", "\xe2\x85\xa4"},
{0x2175, "\xe2\x85\xb5", "\xe2\x85\xa5", "\xe2\x85\xa5"},
{0x2176, "\xe2\x85\xb6", "\xe2\x85\xa6", "\xe2\x85\xa6"},
{0x2177, "\xe2\x85\xb7", "\xe2\x85\xa7", "\xe2\x85\xa7"},
{0x2178, "\xe2\x85\xb8", "\xe2\x85\xa8", "\xe2\x85\xa8"},
{0x2179, "\xe2\x85\xb9", "\xe2\x85\xa9", "\xe2\x85\xa9"},
{0x217a, "\xe2\x85\xba", "\xe2\x85\xaa", "\xe2\x85\xaa"},
{0x217b, "\xe2\x85\xbb", "\xe2\x85\xab", "\xe2\x85\xab"},
{0x217c, "\xe2\x85\xbc", "\xe2\x85\xac", "\xe2\x85\xac"},
{0x217d, "\xe2\x85\xbd", "\xe2\x85\xad", "\xe2\x85\xad"},
{0x217e, "\xe2\x85\xbe", "\xe2\x85\xae", "\xe2\x85\xae"},
{0x217f, "\xe2\x85\xbf", "\xe2\x85\xaf", "\xe2\x85\xaf"},
{0x2183, "\xe2\x86\x84", "\xe2\x86\x83", "\xe2\x86\x83"},
{0x2184, "\xe2\x86\x84", "\xe2\x86\x83", "\xe2\x86\x83"},
{0x24b6, "\xe2\x93\x90", "\xe2\x92\xb6", "\xe2\x92\xb6"},
{0x24b7, "\xe2\x93\x91", "\xe2\x92\xb7", "\xe2\x92\xb7"},
{0x24b8, "\xe2\x93\x92", "\xe2\x92\xb8", "\xe2\x92\xb8"},
{0x24b9, "\xe2\x93\x93", "\xe2\x92\xb9", "\xe2\x92\xb9"},
{0x24ba, "\xe2\x93\x94", "\xe2\x92\xba", "\xe2\x92\xba"},
{0x24bb, "\xe2\x93\x95", "\xe2\x92\xbb", "\xe2\x92\xbb"},
{0x24bc, "\xe2\x93\x96", "\xe2\x92\xbc", "\xe2\x92\xbc"},
{0x24bd, "\xe2\x93\x97", "\xe2\x92\xbd", "\xe2\x92\xbd"},
{0x24be, "\xe2\x93\x98", "\xe2\x92\xbe", "\xe2\x92\xbe"},
{0x24bf, "\xe2\x93\x99", "\xe2\x92\xbf", "\xe2\x92\xbf"},
{0x24c0, "\xe2\x93\x9a", "\xe2\x93\x80", "\xe2\x93\x80"},
{0x24c1, "\xe2\x93\x9b", "\xe2\x93\x81", "\xe2\x93\x81"},
{0x24c2, "\xe2\x93\x9c", "\xe2\x93\x82", "\xe2\x93\x82"},
{0x24c3, "\xe2\x93\x9d", "\xe2\x93\x83", "\xe2\x93\x83"},
{0x24c4, "\xe2\x93\x9e", "\xe2\x93\x84", "\xe2\x93\x84"},
{0x24c5, "\xe2\x93\x9f", "\xe2\x93\x85", "\xe2\x93\x85"},
{0x24c6, "\xe2\x93\xa0", "\xe2\x93\x86", "\xe2\x93\x86"},
{0x24c7, "\xe2\x93\xa1", "\xe2\x93\x87", "\xe2\x93\x87"},
{0x24c8, "\xe2\x93\xa2", "\xe2\x93\x88", "\xe2\x93\x88"},
{0x24c9, "\xe2\x93\xa3", "\xe2\x93\x89", "\xe2\x93\x89"},
{0x24ca, "\xe2\x93\xa4", "\xe2\x93\x8a", "\xe2\x93\x8a"},
{0x24cb, "\xe2\x93\xa5", "\xe2\x93\x8b", "\xe2\x93\x8b"},
{0x24cc, "\xe2\x93\xa6", "\xe2\x93\x8c", "\xe2\x93\x8c"},
{0x24cd, "\xe2\x93\xa7", "\xe2\x93\x8d", "\xe2\x93\x8d"},
{0x24ce, "\xe2\x93\xa8", "\xe2\x93\x8e", "\xe2\x93\x8e"},
{0x24cf, "\xe2\x93\xa9", "\xe2\x93\x8f", "\xe2\x93\x8f"},
{0x24d0, "\xe2\x93\x90", "\xe2\x92\xb6", "\xe2\x92\xb6"},
{0x24d1, "\xe2\x93\x91", "\xe2\x92\xb7", "\xe2\x92\xb7"},
{0x24d2, "\xe2\x93\x92", "\xe2\x92\xb8", "\xe2\x92\xb8"},
{0x24d3, "\xe2\x93\x93", "\xe2\x92\xb9", "\xe2\x92\xb9"},
{0x24d4, "\xe2\x93\x94", "\xe2\x92\xba", "\xe2\x92\xba"},
{0x24d5, "\xe2\x93\x95", "\xe2\x92\xbb", "\xe2\x92\xbb"},
{0x24d6, "\xe2\x93\x96", "\xe2\x92\xbc", "\xe2\x92\xbc"},
{0x24d7, "\xe2\x93\x97", "\xe2\x92\xbd", "\xe2\x92\xbd"},
{0x24d8, "\xe2\x93\x98", "\xe2\x92\xbe", "\xe2\x92\xbe"},
{0x24d9, "\xe2\x93\x99", "\xe2\x92\xbf", "\xe2\x92\xbf"},
{0x24da, "\xe2\x93\x9a", "\xe2\x93\x80", "\xe2\x93\x80"},
{0x24db, "\xe2\x93\x9b", "\xe2\x93\x81", "\xe2\x93\x81"},
{0x24dc, "\xe2\x93\x9c", "\xe2\x93\x82", "\xe2\x93\x82"},
{0x24dd, "\xe2\x93\x9d", "\xe2\x93\x83", "\xe2\x93\x83"},
{0x24de, "\xe2\x93\x9e", "\xe2\x93\x84", "\xe2\x93\x84"},
{0x24df, "\xe2\x93\x9f", "\xe2\x93\x85", "\xe2\x93\x85"},
{0x24e0, "\xe2\x93\xa0", "\xe2\x93\x86", "\xe2\x93\x86"},
{0x24e1, "\xe2\x93\xa1", "\xe2\x93\x87", "\xe2\x93\x87"},
{0x24e2, "\xe2\x93\xa2", "\xe2\x93\x88", "\xe2\x93\x88"},
{0x24e3, "\xe2\x93\xa3", "\xe2\x93\x89", "\xe2\x93\x89"},
{0x24e4, "\xe2\x93\xa4", "\xe2\x93\x8a", "\xe2\x93\x8a"},
{0x24e5, "\xe2\x93\xa5", "\xe2\x93\x8b", "\xe2\x93\x8b"},
{0x24e6, "\xe2\x93\xa6", "\xe2\x93\x8c", "\xe2\x93\x8c"},
{0x24e7, "\xe2\x93\xa7", "\xe2\x93\x8d", "\xe2\x93\x8d"},
{0x24e8, "\xe2\x93\xa8", "\xe2\x93\x8e", "\xe2\x93\x8e"},
{0x24e9, "\xe2\x93\xa9", "\xe2\x93\x8f", "\xe2\x93\x8f"},
{0x2c00, "\xe2\xb0\xb0", "\xe2\xb0\x80", "\xe2\xb0\x80"},
{0x2c01, "\xe2\xb0\xb1", "\xe2\xb0\x81", "\xe2\xb0\x81"},
{0x2c02, "\xe2\xb0\xb2", "\xe2\xb0\x82", "\xe2\xb0\x82"},
{0x2c03, "\xe2\xb0\xb3", "\xe2\xb0\x83", "\xe2\xb0\x83"},
{0x2c04, "\xe2\xb0\xb4", "\xe2\xb0\x84", "\xe2\xb0\x84"},
{0x2c05, "\xe2\xb0\xb5", "\xe2\xb0\x85", "\xe2\xb0\x85"},
{0x2c06, "\xe2\xb0\xb6", "\xe2\xb0\x86", "\xe2\xb0\x86"},
{0x2c07, "\xe2\xb0\xb7", "\xe2\xb0\x87", "\xe2\xb0\x87"},
{0x2c08, "\xe2\xb0\xb8", "\xe2\xb0\x88", "\xe2\xb0\x88"},
{0x2c09, "\xe2\xb0\xb9", "\xe2\xb0\x89", "\xe2\xb0\x89"},
{0x2c0a, "\xe2\xb0\xba", "\xe2\xb0\x8a", "\xe2\xb0\x8a"},
{0x2c0b, "\xe2\xb0\xbb", "\xe2\xb0\x8b", "\xe2\xb0\x8b"},
{0x2c0c, "\xe2\xb0\xbc", "\xe2\xb0\x8c", "\xe2\xb0\x8c"},
{0x2c0d, "\xe2\xb0\xbd", "\xe2\xb0\x8d", "\xe2\xb0\x8d"},
{0x2c0e, "\xe2\xb0\xbe", "\xe2\xb0\x8e", "\xe2\xb0\x8e"},
{0x2c0f, "\xe2\xb0\xbf", "\xe2\xb0\x8f", "\xe2\xb0\x8f"},
{0x2c10, "\xe2\xb1\x80", "\xe2\xb0\x90", "\xe2\xb0\x90"},
{0x2c11, "\xe2\xb1\x81", "\xe2\xb0\x91", "\xe2\xb0\x91"},
{0x2c12, "\xe2\xb1\x82", "\xe2\xb0\x92", "\xe2\xb0\x92"},
{0x2c13, "\xe2\xb1\x83", "\xe2\xb0\x93", "\xe2\xb0\x93"},
{0x2c14, "\xe2\xb1\x84", "\xe2\xb0\x94", "\xe2\xb0\x94"},
{0x2c15, "\xe2\xb1\x85", "\xe2\xb0\x95", "\xe2\xb0\x95"},
{0x2c16, "\xe2\xb1\x86", "\xe2\xb0\x96", "\xe2\xb0\x96"},
{0x2c17, "\xe2\xb1\x87", "\xe2\xb0\x97", "\xe2\xb0\x97"},
{0x2c18, "\xe2\xb1\x88", "\xe2\xb0\x98", "\xe2\xb0\x98"},
{0x2c19, "\xe2\xb1\x89", "\xe2\xb0\x99", "\xe2\xb0\x99"},
{0x2c1a, "\xe2\xb1\x8a", "\xe2\xb0\x9a", "\xe2\xb0\x9a"},
{0x2c1b, "\xe2\xb1\x8b", "\xe2\xb0\x9b", "\xe2\xb0\x9b"},
{0x2c1c, "\xe2\xb1\x8c", "\xe2\xb0\x9c", "\xe2\xb0\x9c"},
{0x2c1d, "\xe2\xb1\x8d", "\xe2\xb0\x9d", "\xe2\xb0\x9d"},
{0x2c1e, "\xe2\xb1\x8e", "\xe2\xb0\x9e", "\xe2\xb0\x9e"},
{0x2c1f, "\xe2\xb1\x8f", "\xe2\xb0\x9f", "\xe2\xb0\x9f"},
{0x2c20, "\xe2\xb1\x90", "\xe2\xb0\xa0", "\xe2\xb0\xa0"},
{0x2c21, "\xe2\xb1\x91", "\xe2\xb0\xa1", "\xe2\xb0\xa1"},
{0x2c22, "\xe2\xb1\x92", "\xe2\xb0\xa2", "\xe2\xb0\xa2"},
{0x2c23, "\xe2\xb1\x93", "\xe2\xb0\xa3", "\xe2\xb0\xa3"},
{0x2c24, "\xe2\xb1\x94", "\xe2\xb0\xa4", "\xe2\xb0\xa4"},
{0x2c25, "\xe2\xb1\x95", "\xe2\xb0\xa5", "\xe2\xb0\xa5"},
{0x2c26, "\xe2\xb1\x96", "\xe2\xb0\xa6", "\xe2\xb0\xa6"},
{0x2c27, "\xe2\xb1\x97", "\xe2\xb0\xa7", "\xe2\xb0\xa7"},
{0x2c28, "\xe2\xb1\x98", "\xe2\xb0\xa8", "\xe2\xb0\xa8"},
{0x2c29, "\xe2\xb1\x99", "\xe2\xb0\xa9", "\xe2\xb0\xa9"},
{0x2c2a, "\xe2\xb1\x9a", "\xe2\xb0\xaa", "\xe2\xb0\xaa"},
{0x2c2b, "\xe2\xb1\x9b", "\xe2\xb0\xab", "\xe2\xb0\xab"},
{0x2c2c, "\xe2\xb1\x9c", "\xe2\xb0\xac", "\xe2\xb0\xac"},
{0x2c2d, "\xe2\xb1\x9d", "\xe2\xb0\xad", "\xe2\xb0\xad"},
{0x2c2e, "\xe2\xb1\x9e", "\xe2\xb0\xae", "\xe2\xb0\xae"},
{0x2c30, "\xe2\xb0\xb0", "\xe2\xb0\x80", "\xe2\xb0\x80"},
{0x2c31, "\xe2\xb0\xb1", "\xe2\xb0\x81", "\xe2\xb0\x81"},
{0x2c32, "\xe2\xb0\xb2", "\xe2\xb0\x82", "\xe2\xb0\x82"},
{0x2c33, "\xe2\xb0\xb3", "\xe2\xb0\x83", "\xe2\xb0\x83"},
{0x2c34, "\xe2\xb0\xb4", "\xe2\xb0\x84", "\xe2\xb0\x84"},
{0x2c35, "\xe2\xb0\xb5", "\xe2\xb0\x85", "\xe2\xb0\x85"},
{0x2c36, "\xe2\xb0\xb6", "\xe2\xb0\x86", "\xe2\xb0\x86"},
{0x2c37, "\xe2\xb0\xb7", "\xe2\xb0\x87", "\xe2\xb0\x87"},
{0x2c38, "\xe2\xb0\xb8", "\xe2\xb0\x88", "\xe2\xb0\x88"},
{0x2c39, "\xe2\xb0\xb9", "\xe2\xb0\x89", "\xe2\xb0\x89"},
{0x2c3a, "\xe2\xb0\xba", "\xe2\xb0\x8a", "\xe2\xb0\x8a"},
{0x2c3b, "\xe2\xb0\xbb", "\xe2\xb0\x8b", "\xe2\xb0\x8b"},
{0x2c3c, "\xe2\xb0\xbc", "\xe2\xb0\x8c", "\xe2\xb0\x8c"},
{0x2c3d, "\xe2\xb0\xbd", "\xe2\xb0\x8d", "\xe2\xb0\x8d"},
{0x2c3e, "\xe2\xb0\xbe", "\xe2\xb0\x8e", "\xe2\xb0\x8e"},
{0x2c3f, "\xe2\xb0\xbf", "\xe2\xb0\x8f", "\xe2\xb0\x8f"},
{0x2c40, "\xe2\xb1\x80", "\xe2\xb0\x90", "\xe2\xb0\x90"},
{0x2c41, "\xe2\xb1\x81", "\xe2\xb0\x91", "\xe2\xb0\x91"},
{0x2c42, "\xe2\xb1\x82", "\xe2\xb0\x92", "\xe2\xb0\x92"},
{0x2c43, "\xe2\xb1\x83", "\xe2\xb0\x93", "\xe2\xb0\x93"},
{0x2c44, "\xe2\xb1\x84", "\xe2\xb0\x94", "\xe2\xb0\x94"},
{0x2c45, "\xe2\xb1\x85", "\xe2\xb0\x95", "\xe2\xb0\x95"},
{0x2c46, "\xe2\xb1\x86", "\xe2\xb0\x96", "\xe2\xb0\x96"},
{0x2c47, "\xe2\xb1\x87", "\xe2\xb0\x97", "\xe2\xb0\x97"},
{0x2c48, "\xe2\xb1\x88", "\xe2\xb0\x98", "\xe2\xb0\x98"},
{0x2c49, "\xe2\xb1\x89", "\xe2\xb0\x99", "\xe2\xb0\x99"},
{0x2c4a, "\xe2\xb1\x8a", "\xe2\xb0\x9a", "\xe2\xb0\x9a"},
{0x2c4b, "\xe2\xb1\x8b", "\xe2\xb0\x9b", "\xe2\xb0\x9b"},
{0x2c4c, "\xe2\xb1\x8c", "\xe2\xb0\x9c", "\xe2\xb0\x9c"},
{0x2c4d, "\xe2\xb1\x8d", "\xe2\xb0\x9d", "\xe2\xb0\x9d"},
{0x2c4e, "\xe2\xb1\x8e", "\xe2\xb0\x9e", "\xe2\xb0\x9e"},
{0x2c4f, "\xe2\xb1\x8f", "\xe2\xb0\x9f", "\xe2\xb0\x9f"},
{0x2c50, "\xe2\xb1\x90", "\xe2\xb0\xa0", "\xe2\xb0\xa0"},
{0x2c51, "\xe2\xb1\x91", "\xe2\xb0\xa1", "\xe2\xb0\xa1"},
{0x2c52, "\xe2\xb1\x92", "\xe2\xb0\xa2", "\xe2\xb0\xa2"},
{0x2c53, "\xe2\xb1\x93", "\xe2\xb0\xa3", "\xe2\xb0\xa3"},
{0x2c54, "\xe2\xb1\x94", "\xe2\xb0\xa4", "\xe2\xb0\xa4"},
{0x2c55, "\xe2\xb1\x95", "\xe2\xb0\xa5", "\xe2\xb0\xa5"},
{0x2c56, "\xe2\xb1\x96", "\xe2\xb0\xa6", "\xe2\xb0\xa6"},
{0x2c57, "\xe2\xb1\x97", "\xe2\xb0\xa7", "\xe2\xb0\xa7"},
{0x2c58, "\xe2\xb1\x98", "\xe2\xb0\xa8", "\xe2\xb0\xa8"},
{0x2c59, "\xe2\xb1\x99", "\xe2\xb0\xa9", "\xe2\xb0\xa9"},
{0x2c5a, "\xe2\xb1\x9a", "\xe2\xb0\xaa", "\xe2\xb0\xaa"},
{0x2c5b, "\xe2\xb1\x9b", "\xe2\xb0\xab", "\xe2\xb0\xab"},
{0x2c5c, "\xe2\xb1\x9c", "\xe2\xb0\xac", "\xe2\xb0\xac"},
{0x2c5d, "\xe2\xb1\x9d", "\xe2\xb0\xad", "\xe2\xb0\xad"},
{0x2c5e, "\xe2\xb1\x9e", "\xe2\xb0\xae", "\xe2\xb0\xae"},
{0x2c60, "\xe2\xb1\xa1", "\xe2\xb1\xa0", "\xe2\xb1\xa0"},
{0x2c61, "\xe2\xb1\xa1", "\xe2\xb1\xa0", "\xe2\xb1\xa0"},
{0x2c62, "\xc9\xab", "\xe2\xb1\xa2", "\xe2\xb1\xa2"},
{0x2c63, "\xe1\xb5\xbd", "\xe2\xb1\xa3", "\xe2\xb1\xa3"},
{0x2c64, "\xc9\xbd", "\xe2\xb1\xa4", "\xe2\xb1\xa4"},
{0x2c65, "\xe2\xb1\xa5", "\xc8\xba", "\xc8\xba"},
{0x2c66, "\xe2\xb1\xa6", "\xc8\xbe", "\xc8\xbe"},
{0x2c67, "\xe2\xb1\xa8", "\xe2\xb1\xa7", "\xe2\xb1\xa7"},
{0x2c68, "\xe2\xb1\xa8", "\xe2\xb1\xa7", "\xe2\xb1\xa7"},
{0x2c69, "\xe2\xb1\xaa", "\xe2\xb1\xa9", "\xe2\xb1\xa9"},
{0x2c6a, "\xe2\xb1\xaa", "\xe2\xb1\xa9", "\xe2\xb1\xa9"},
{0x2c6b, "\xe2\xb1\xac", "\xe2\xb1\xab", "\xe2\xb1\xab"},
{0x2c6c, "\xe2\xb1\xac", "\xe2\xb1\xab", "\xe2\xb1\xab"},
{0x2c6d, "\xc9\x91", "\xe2\xb1\xad", "\xe2\xb1\xad"},
{0x2c6e, "\xc9\xb1", "\xe2\xb1\xae", "\xe2\xb1\xae"},
{0x2c6f, "\xc9\x90", "\xe2\xb1\xaf", "\xe2\xb1\xaf"},
{0x2c70, "\xc9\x92", "\xe2\xb1\xb0", "\xe2\xb1\xb0"},
{0x2c72, "\xe2\xb1\xb3", "\xe2\xb1\xb2", "\xe2\xb1\xb2"},
{0x2c73, "\xe2\xb1\xb3", "\xe2\xb1\xb2", "\xe2\xb1\xb2"},
{0x2c75, "\xe2\xb1\xb6", "\xe2\xb1\xb5", "\xe2\xb1\xb5"},
{0x2c76, "\xe2\xb1\xb6", "\xe2\xb1\xb5", "\xe2\xb1\xb5"},
{0x2c7e, "\xc8\xbf", "\xe2\xb1\xbe", "\xe2\xb1\xbe"},
{0x2c7f, "\xc9\x80", "\xe2\xb1\xbf", "\xe2\xb1\xbf"},
{0x2c80, "\xe2\xb2\x81", "\xe2\xb2\x80", "\xe2\xb2\x80"},
{0x2c81, "\xe2\xb2\x81", "\xe2\xb2\x80", "\xe2\xb2\x80"},
{0x2c82, "\xe2\xb2\x83", "\xe2\xb2\x82", "\xe2\xb2\x82"},
{0x2c83, "\xe2\xb2\x83", "\xe2\xb2\x82", "\xe2\xb2\x82"},
{0x2c84, "\xe2\xb2\x85", "\xe2\xb2\x84", "\xe2\xb2\x84"},
{0x2c85, "\xe2\xb2\x85", "\xe2\xb2\x84", "\xe2\xb2\x84"},
{0x2c86, "\xe2\xb2\x87", "\xe2\xb2\x86", "\xe2\xb2\x86"},
{0x2c87, "\xe2\xb2\x87", "\xe2\xb2\x86", "\xe2\xb2\x86"},
{0x2c88, "\xe2\xb2\x89", "\xe2\xb2\x88", "\xe2\xb2\x88"},
{0x2c89, "\xe2\xb2\x89", "\xe2\xb2\x88", "\xe2\xb2\x88"},
{0x2c8a, "\xe2\xb2\x8b", "\xe2\xb2\x8a", "\xe2\xb2\x8a"},
{0x2c8b, "\xe2\xb2\x8b", "\xe2\xb2\x8a", "\xe2\xb2\x8a"},
{0x2c8c, "\xe2\xb2\x8d", "\xe2\xb2\x8c", "\xe2\xb2\x8c"},
{0x2c8d, "\xe2\xb2\x8d", "\xe2\xb2\x8c", "\xe2\xb2\x8c"},
{0x2c8e, "\xe2\xb2\x8f", "\xe2\xb2\x8e", "\xe2\xb2\x8e"},
{0x2c8f, "\xe2\xb2\x8f", "\xe2\xb2\x8e", "\xe2\xb2\x8e"},
{0x2c90, "\xe2\xb2\x91", "\xe2\xb2\x90", "\xe2\xb2\x90"},
{0x2c91, "\xe2\xb2\x91", "\xe2\xb2\x90", "\xe2\xb2\x90"},
{0x2c92, "\xe2\xb2\x93", "\xe2\xb2\x92", "\xe2\xb2\x92"},
{0x2c93, "\xe2\xb2\x93", "\xe2\xb2\x92", "\xe2\xb2\x92"},
{0x2c94, "\xe2\xb2\x95", "\xe2\xb2\x94", "\xe2\xb2\x94"},
{0x2c95, "\xe2\xb2\x95", "\xe2\xb2\x94", "\xe2\xb2\x94"},
{0x2c96, "\xe2\xb2\x97", "\xe2\xb2\x96", "\xe2\xb2\x96"},
{0x2c97, "\xe2\xb2\x97", "\xe2\xb2\x96", "\xe2\xb2\x96"},
{0x2c98, "\xe2\xb2\x99", "\xe2\xb2\x98", "\xe2\xb2\x98"},
{0x2c99, "\xe2\xb2\x99", "\xe2\xb2\x98", "\xe2\xb2\x98"},
{0x2c9a, "\xe2\xb2\x9b", "\xe2\xb2\x9a", "\xe2\xb2\x9a"},
{0x2c9b, "\xe2\xb2\x9b", "\xe2\xb2\x9a", "\xe2\xb2\x9a"},
{0x2c9c, "\xe2\xb2\x9d", "\xe2\xb2\x9c", "\xe2\xb2\x9c"},
{0x2c9d, "\xe2\xb2\x9d", "\xe2\xb2\x9c", "\xe2\xb2\x9c"},
{0x2c9e, "\xe2\xb2\x9f", "\xe2\xb2\x9e", "\xe2\xb2\x9e"},
{0x2c9f, "\xe2\xb2\x9f", "\xe2\xb2\x9e", "\xe2\xb2\x9e"},
{0x2ca0, "\xe2\xb2\xa1", "\xe2\xb2\xa0", "\xe2\xb2\xa0"},
{0x2ca1, "\xe2\xb2\xa1", "\xe2\xb2\xa0", "\xe2\xb2\xa0"},
{0x2ca2, "\xe2\xb2\xa3", "\xe2\xb2\xa2", "\xe2\xb2\xa2"},
{0x2ca3, "\xe2\xb2\xa3", "\xe2\xb2\xa2", "\xe2\xb2\xa2"},
{0x2ca4, "\xe2\xb2\xa5", "\xe2\xb2\xa4", "\xe2\xb2\xa4"},
{0x2ca5, "\xe2\xb2\xa5", "\xe2\xb2\xa4", "\xe2\xb2\xa4"},
{0x2ca6, "\xe2\xb2\xa7", "\xe2\xb2\xa6", "\xe2\xb2\xa6"},
{0x2ca7, "\xe2\xb2\xa7", "\xe2\xb2\xa6", "\xe2\xb2\xa6"},
{0x2ca8, "\xe2\xb2\xa9", "\xe2\xb2\xa8", "\xe2\xb2\xa8"},
{0x2ca9, "\xe2\xb2\xa9", "\xe2\xb2\xa8", "\xe2\xb2\xa8"},
{0x2caa, "\xe2\xb2\xab", "\xe2\xb2\xaa", "\xe2\xb2\xaa"},
{0x2cab, "\xe2\xb2\xab", "\xe2\xb2\xaa", "\xe2\xb2\xaa"},
{0x2cac, "\xe2\xb2\xad", "\xe2\xb2\xac", "\xe2\xb2\xac"},
{0x2cad, "\xe2\xb2\xad", "\xe2\xb2\xac", "\xe2\xb2\xac"},
{0x2cae, "\xe2\xb2\xaf", "\xe2\xb2\xae", "\xe2\xb2\xae"},
{0x2caf, "\xe2\xb2\xaf", "\xe2\xb2\xae", "\xe2\xb2\xae"},
{0x2cb0, "\xe2\xb2\xb1", "\xe2\xb2\xb0", "\xe2\xb2\xb0"},
{0x2cb1, "\xe2\xb2\xb1", "\xe2\xb2\xb0", "\xe2\xb2\xb0"},
{0x2cb2, "\xe2\xb2\xb3", "\xe2\xb2\xb2", "\xe2\xb2\xb2"},
{0x2cb3, "\xe2\xb2\xb3", "\xe2\xb2\xb2", "\xe2\xb2\xb2"},
{0x2cb4, "\xe2\xb2\xb5", "\xe2\xb2\xb4", "\xe2\xb2\xb4"},
{0x2cb5, "\xe2\xb2\xb5", "\xe2\xb2\xb4", "\xe2\xb2\xb4"},
{0x2cb6, "\xe2\xb2\xb7", "\xe2\xb2\xb6", "\xe2\xb2\xb6"},
{0x2cb7, "\xe2\xb2\xb7", "\xe2\xb2\xb6", "\xe2\xb2\xb6"},
{0x2cb8, "\xe2\xb2\xb9", "\xe2\xb2\xb8", "\xe2\xb2\xb8"},
{0x2cb9, "\xe2\xb2\xb9", "\xe2\xb2\xb8", "\xe2\xb2\xb8"},
{0x2cba, "\xe2\xb2\xbb", "\xe2\xb2\xba", "\xe2\xb2\xba"},
{0x2cbb, "\xe2\xb2\xbb", "\xe2\xb2\xba", "\xe2\xb2\xba"},
{0x2cbc, "\xe2\xb2\xbd", "\xe2\xb2\xbc", "\xe2\xb2\xbc"},
{0x2cbd, "\xe2\xb2\xbd", "\xe2\xb2\xbc", "\xe2\xb2\xbc"},
{0x2cbe, "\xe2\xb2\xbf", "\xe2\xb2\xbe", "\xe2\xb2\xbe"},
{0x2cbf, "\xe2\xb2\xbf", "\xe2\xb2\xbe", "\xe2\xb2\xbe"},
{0x2cc0, "\xe2\xb3\x81", "\xe2\xb3\x80", "\xe2\xb3\x80"},
{0x2cc1, "\xe2\xb3\x81", "\xe2\xb3\x80", "\xe2\xb3\x80"},
{0x2cc2, "\xe2\xb3\x83", "\xe2\xb3\x82", "\xe2\xb3\x82"},
{0x2cc3, "\xe2\xb3\x83", "\xe2\xb3\x82", "\xe2\xb3\x82"},
{0x2cc4, "\xe2\xb3\x85", "\xe2\xb3\x84", "\xe2\xb3\x84"},
{0x2cc5, "\xe2\xb3\x85", "\xe2\xb3\x84", "\xe2\xb3\x84"},
{0x2cc6, "\xe2\xb3\x87", "\xe2\xb3\x86", "\xe2\xb3\x86"},
{0x2cc7, "\xe2\xb3\x87", "\xe2\xb3\x86", "\xe2\xb3\x86"},
{0x2cc8, "\xe2\xb3\x89", "\xe2\xb3\x88", "\xe2\xb3\x88"},
{0x2cc9, "\xe2\xb3\x89", "\xe2\xb3\x88", "\xe2\xb3\x88"},
{0x2cca, "\xe2\xb3\x8b", "\xe2\xb3\x8a", "\xe2\xb3\x8a"},
{0x2ccb, "\xe2\xb3\x8b", "\xe2\xb3\x8a", "\xe2\xb3\x8a"},
{0x2ccc, "\xe2\xb3\x8d", "\xe2\xb3\x8c", "\xe2\xb3\x8c"},
{0x2ccd, "\xe2\xb3\x8d", "\xe2\xb3\x8c", "\xe2\xb3\x8c"},
{0x2cce, "\xe2\xb3\x8f", "\xe2\xb3\x8e", "\xe2\xb3\x8e"},
{0x2ccf, "\xe2\xb3\x8f", "\xe2\xb3\x8e", "\xe2\xb3\x8e"},
{0x2cd0, "\xe2\xb3\x91", "\xe2\xb3\x90", "\xe2\xb3\x90"},
{0x2cd1, "\xe2\xb3\x91", "\xe2\xb3\x90", "\xe2\xb3\x90"},
{0x2cd2, "\xe2\xb3\x93", "\xe2\xb3\x92", "\xe2\xb3\x92"},
{0x2cd3, "\xe2\xb3\x93", "\xe2\xb3\x92", "\xe2\xb3\x92"},
{0x2cd4, "\xe2\xb3\x95", "\xe2\xb3\x94", "\xe2\xb3\x94"},
{0x2cd5, "\xe2\xb3\x95", "\xe2\xb3\x94", "\xe2\xb3\x94"},
{0x2cd6, "\xe2\xb3\x97", "\xe2\xb3\x96", "\xe2\xb3\x96"},
{0x2cd7, "\xe2\xb3\x97", "\xe2\xb3\x96", "\xe2\xb3\x96"},
{0x2cd8, "\xe2\xb3\x99", "\xe2\xb3\x98", "\xe2\xb3\x98"},
{0x2cd9, "\xe2\xb3\x99", "\xe2\xb3\x98", "\xe2\xb3\x98"},
{0x2cda, "\xe2\xb3\x9b", "\xe2\xb3\x9a", "\xe2\xb3\x9a"},
{0x2cdb, "\xe2\xb3\x9b", "\xe2\xb3\x9a", "\xe2\xb3\x9a"},
{0x2cdc, "\xe2\xb3\x9d", "\xe2\xb3\x9c", "\xe2\xb3\x9c"},
{0x2cdd, "\xe2\xb3\x9d", "\xe2\xb3\x9c", "\xe2\xb3\x9c"},
{0x2cde, "\xe2\xb3\x9f", "\xe2\xb3\x9e", "\xe2\xb3\x9e"},
{0x2cdf, "\xe2\xb3\x9f", "\xe2\xb3\x9e", "\xe2\xb3\x9e"},
{0x2ce0, "\xe2\xb3\xa1", "\xe2\xb3\xa0", "\xe2\xb3\xa0"},
{0x2ce1, "\xe2\xb3\xa1", "\xe2\xb3\xa0", "\xe2\xb3\xa0"},
{0x2ce2, "\xe2\xb3\xa3", "\xe2\xb3\xa2", "\xe2\xb3\xa2"},
{0x2ce3, "\xe2\xb3\xa3", "\xe2\xb3\xa2", "\xe2\xb3\xa2"},
{0x2ceb, "\xe2\xb3\xac", "\xe2\xb3\xab", "\xe2\xb3\xab"},
{0x2cec, "\xe2\xb3\xac", "\xe2\xb3\xab", "\xe2\xb3\xab"},
{0x2ced, "\xe2\xb3\xae", "\xe2\xb3\xad", "\xe2\xb3\xad"},
{0x2cee, "\xe2\xb3\xae", "\xe2\xb3\xad", "\xe2\xb3\xad"},
{0x2d00, "\xe2\xb4\x80", "\xe1\x82\xa0", "\xe1\x82\xa0"},
{0x2d01, "\xe2\xb4\x81", "\xe1\x82\xa1", "\xe1\x82\xa1"},
{0x2d02, "\xe2\xb4\x82", "\xe1\x82\xa2", "\xe1\x82\xa2"},
{0x2d03, "\xe2\xb4\x83", "\xe1\x82\xa3", "\xe1\x82\xa3"},
{0x2d04, "\xe2\xb4\x84", "\xe1\x82\xa4", "\xe1\x82\xa4"},
{0x2d05, "\xe2\xb4\x85", "\xe1\x82\xa5", "\xe1\x82\xa5"},
{0x2d06, "\xe2\xb4\x86", "\xe1\x82\xa6", "\xe1\x82\xa6"},
{0x2d07, "\xe2\xb4\x87", "\xe1\x82\xa7", "\xe1\x82\xa7"},
{0x2d08, "\xe2\xb4\x88", "\xe1\x82\xa8", "\xe1\x82\xa8"},
{0x2d09, "\xe2\xb4\x89", "\xe1\x82\xa9", "\xe1\x82\xa9"},
{0x2d0a, "\xe2\xb4\x8a", "\xe1\x82\xaa", "\xe1\x82\xaa"},
{0x2d0b, "\xe2\xb4\x8b", "\xe1\x82\xab", "\xe1\x82\xab"},
{0x2d0c, "\xe2\xb4\x8c", "\xe1\x82\xac", "\xe1\x82\xac"},
{0x2d0d, "\xe2\xb4\x8d", "\xe1\x82\xad", "\xe1\x82\xad"},
{0x2d0e, "\xe2\xb4\x8e", "\xe1\x82\xae", "\xe1\x82\xae"},
{0x2d0f, "\xe2\xb4\x8f", "\xe1\x82\xaf", "\xe1\x82\xaf"},
{0x2d10, "\xe2\xb4\x90", "\xe1\x82\xb0", "\xe1\x82\xb0"},
{0x2d11, "\xe2\xb4\x91", "\xe1\x82\xb1", "\xe1\x82\xb1"},
{0x2d12, "\xe2\xb4\x92", "\xe1\x82\xb2", "\xe1\x82\xb2"},
{0x2d13, "\xe2\xb4\x93", "\xe1\x82\xb3", "\xe1\x82\xb3"},
{0x2d14, "\xe2\xb4\x94", "\xe1\x82\xb4", "\xe1\x82\xb4"},
{0x2d15, "\xe2\xb4\x95", "\xe1\x82\xb5", "\xe1\x82\xb5"},
{0x2d16, "\xe2\xb4\x96", "\xe1\x82\xb6", "\xe1\x82\xb6"},
{0x2d17, "\xe2\xb4\x97", "\xe1\x82\xb7", "\xe1\x82\xb7"},
{0x2d18, "\xe2\xb4\x98", "\xe1\x82\xb8", "\xe1\x82\xb8"},
{0x2d19, "\xe2\xb4\x99", "\xe1\x82\xb9", "\xe1\x82\xb9"},
{0x2d1a, "\xe2\xb4\x9a", "\xe1\x82\xba", "\xe1\x82\xba"},
{0x2d1b, "\xe2\xb4\x9b", "\xe1\x82\xbb", "\xe1\x82\xbb"},
{0x2d1c, "\xe2\xb4\x9c", "\xe1\x82\xbc", "\xe1\x82\xbc"},
{0x2d1d, "\xe2\xb4\x9d", "\xe1\x82\xbd", "\xe1\x82\xbd"},
{0x2d1e, "\xe2\xb4\x9e", "\xe1\x82\xbe", "\xe1\x82\xbe"},
{0x2d1f, "\xe2\xb4\x9f", "\xe1\x82\xbf", "\xe1\x82\xbf"},
{0x2d20, "\xe2\xb4\xa0", "\xe1\x83\x80", "\xe1\x83\x80"},
{0x2d21, "\xe2\xb4\xa1", "\xe1\x83\x81", "\xe1\x83\x81"},
{0x2d22, "\xe2\xb4\xa2", "\xe1\x83\x82", "\xe1\x83\x82"},
{0x2d23, "\xe2\xb4\xa3", "\xe1\x83\x83", "\xe1\x83\x83"},
{0x2d24, "\xe2\xb4\xa4", "\xe1\x83\x84", "\xe1\x83\x84"},
{0x2d25, "\xe2\xb4\xa5", "\xe1\x83\x85", "\xe1\x83\x85"},
{0xa640, "\xea\x99\x81", "\xea\x99\x80", "\xea\x99\x80"},
{0xa641, "\xea\x99\x81", "\xea\x99\x80", "\xea\x99\x80"},
{0xa642, "\xea\x99\x83", "\xea\x99\x82", "\xea\x99\x82"},
{0xa643, "\xea\x99\x83", "\xea\x99\x82", "\xea\x99\x82"},
{0xa644, "\xea\x99\x85", "\xea\x99\x84", "\xea\x99\x84"},
{0xa645, "\xea\x99\x85", "\xea\x99\x84", "\xea\x99\x84"},
{0xa646, "\xea\x99\x87", "\xea\x99\x86", "\xea\x99\x86"},
{0xa647, "\xea\x99\x87", "\xea\x99\x86", "\xea\x99\x86"},
{0xa648, "\xea\x99\x89", "\xea\x99\x88", "\xea\x99\x88"},
{0xa649, "\xea\x99\x89", "\xea\x99\x88", "\xea\x99\x88"},
{0xa64a, "\xea\x99\x8b", "\xea\x99\x8a", "\xea\x99\x8a"},
{0xa64b, "\xea\x99\x8b", "\xea\x99\x8a", "\xea\x99\x8a"},
{0xa64c, "\xea\x99\x8d", "\xea\x99\x8c", "\xea\x99\x8c"},
{0xa64d, "\xea\x99\x8d", "\xea\x99\x8c", "\xea\x99\x8c"},
{0xa64e, "\xea\x99\x8f", "\xea\x99\x8e", "\xea\x99\x8e"},
{0xa64f, "\xea\x99\x8f", "\xea\x99\x8e", "\xea\x99\x8e"},
{0xa650, "\xea\x99\x91", "\xea\x99\x90", "\xea\x99\x90"},
{0xa651, "\xea\x99\x91", "\xea\x99\x90", "\xea\x99\x90"},
{0xa652, "\xea\x99\x93", "\xea\x99\x92", "\xea\x99\x92"},
{0xa653, "\xea\x99\x93", "\xea\x99\x92", "\xea\x99\x92"},
{0xa654, "\xea\x99\x95", "\xea\x99\x94", "\xea\x99\x94"},
{0xa655, "\xea\x99\x95", "\xea\x99\x94", "\xea\x99\x94"},
{0xa656, "\xea\x99\x97", "\xea\x99\x96", "\xea\x99\x96"},
{0xa657, "\xea\x99\x97", "\xea\x99\x96", "\xea\x99\x96"},
{0xa658, "\xea\x99\x99", "\xea\x99\x98", "\xea\x99\x98"},
{0xa659, "\xea\x99\x99", "\xea\x99\x98", "\xea\x99\x98"},
{0xa65a, "\xea\x99\x9b", "\xea\x99\x9a", "\xea\x99\x9a"},
{0xa65b, "\xea\x99\x9b", "\xea\x99\x9a", "\xea\x99\x9a"},
{0xa65c, "\xea\x99\x9d", "\xea\x99\x9c", "\xea\x99\x9c"},
{0xa65d, "\xea\x99\x9d", "\xea\x99\x9c", "\xea\x99\x9c"},
{0xa65e, "\xea\x99\x9f", "\xea\x99\x9e", "\xea\x99\x9e"},
{0xa65f, "\xea\x99\x9f", "\xea\x99\x9e", "\xea\x99\x9e"},
{0xa660, "\xea\x99\xa1", "\xea\x99\xa0", "\xea\x99\xa0"},
{0xa661, "\xea\x99\xa1", "\xea\x99\xa0", "\xea\x99\xa0"},
{0xa662, "\xea\x99\xa3", "\xea\x99\xa2", "\xea\x99\xa2"},
{0xa663, "\xea\x99\xa3", "\xea\x99\xa2", "\xea\x99\xa2"},
{0xa664, "\xea\x99\xa5", "\xea\x99\xa4", "\xea\x99\xa4"},
{0xa665, "\xea\x99\xa5", "\xea\x99\xa4", "\xea\x99\xa4"},
{0xa666, "\xea\x99\xa7", "\xea\x99\xa6", "\xea\x99\xa6"},
{0xa667, "\xea\x99\xa7", "\xea\x99\xa6", "\xea\x99\xa6"},
{0xa668, "\xea\x99\xa9", "\xea\x99\xa8", "\xea\x99\xa8"},
{0xa669, "\xea\x99\xa9", "\xea\x99\xa8", "\xea\x99\xa8"},
{0xa66a, "\xea\x99\xab", "\xea\x99\xaa", "\xea\x99\xaa"},
{0xa66b, "\xea\x99\xab", "\xea\x99\xaa", "\xea\x99\xaa"},
{0xa66c, "\xea\x99\xad", "\xea\x99\xac", "\xea\x99\xac"},
{0xa66d, "\xea\x99\xad", "\xea\x99\xac", "\xea\x99\xac"},
{0xa680, "\xea\x9a\x81", "\xea\x9a\x80", "\xea\x9a\x80"},
{0xa681, "\xea\x9a\x81", "\xea\x9a\x80", "\xea\x9a\x80"},
{0xa682, "\xea\x9a\x83", "\xea\x9a\x82", "\xea\x9a\x82"},
{0xa683, "\xea\x9a\x83", "\xea\x9a\x82", "\xea\x9a\x82"},
{0xa684, "\xea\x9a\x85", "\xea\x9a\x84", "\xea\x9a\x84"},
{0xa685, "\xea\x9a\x85", "\xea\x9a\x84", "\xea\x9a\x84"},
{0xa686, "\xea\x9a\x87", "\xea\x9a\x86", "\xea\x9a\x86"},
{0xa687, "\xea\x9a\x87", "\xea\x9a\x86", "\xea\x9a\x86"},
{0xa688, "\xea\x9a\x89", "\xea\x9a\x88", "\xea\x9a\x88"},
{0xa689, "\xea\x9a\x89", "\xea\x9a\x88", "\xea\x9a\x88"},
{0xa68a, "\xea\x9a\x8b", "\xea\x9a\x8a", "\xea\x9a\x8a"},
{0xa68b, "\xea\x9a\x8b", "\xea\x9a\x8a", "\xea\x9a\x8a"},
{0xa68c, "\xea\x9a\x8d", "\xea\x9a\x8c", "\xea\x9a\x8c"},
{0xa68d, "\xea\x9a\x8d", "\xea\x9a\x8c", "\xea\x9a\x8c"},
{0xa68e, "\xea\x9a\x8f", "\xea\x9a\x8e", "\xea\x9a\x8e"},
{0xa68f, "\xea\x9a\x8f", "\xea\x9a\x8e", "\xea\x9a\x8e"},
{0xa690, "\xea\x9a\x91", "\xea\x9a\x90", "\xea\x9a\x90"},
{0xa691, "\xea\x9a\x91", "\xea\x9a\x90", "\xea\x9a\x90"},
{0xa692, "\xea\x9a\x93", "\xea\x9a\x92", "\xea\x9a\x92"},
{0xa693, "\xea\x9a\x93", "\xea\x9a\x92", "\xea\x9a\x92"},
{0xa694, "\xea\x9a\x95", "\xea\x9a\x94", "\xea\x9a\x94"},
{0xa695, "\xea\x9a\x95", "\xea\x9a\x94", "\xea\x9a\x94"},
{0xa696, "\xea\x9a\x97", "\xea\x9a\x96", "\xea\x9a\x96"},
{0xa697, "\xea\x9a\x97", "\xea\x9a\x96", "\xea\x9a\x96"},
{0xa722, "\xea\x9c\xa3", "\xea\x9c\xa2", "\xea\x9c\xa2"},
{0xa723, "\xea\x9c\xa3", "\xea\x9c\xa2", "\xea\x9c\xa2"},
{0xa724, "\xea\x9c\xa5", "\xea\x9c\xa4", "\xea\x9c\xa4"},
{0xa725, "\xea\x9c\xa5", "\xea\x9c\xa4", "\xea\x9c\xa4"},
{0xa726, "\xea\x9c\xa7", "\xea\x9c\xa6", "\xea\x9c\xa6"},
{0xa727, "\xea\x9c\xa7", "\xea\x9c\xa6", "\xea\x9c\xa6"},
{0xa728, "\xea\x9c\xa9", "\xea\x9c\xa8", "\xea\x9c\xa8"},
{0xa729, "\xea\x9c\xa9", "\xea\x9c\xa8", "\xea\x9c\xa8"},
{0xa72a, "\xea\x9c\xab", "\xea\x9c\xaa", "\xea\x9c\xaa"},
{0xa72b, "\xea\x9c\xab", "\xea\x9c\xaa", "\xea\x9c\xaa"},
{0xa72c, "\xea\x9c\xad", "\xea\x9c\xac", "\xea\x9c\xac"},
{0xa72d, "\xea\x9c\xad", "\xea\x9c\xac", "\xea\x9c\xac"},
{0xa72e, "\xea\x9c\xaf", "\xea\x9c\xae", "\xea\x9c\xae"},
{0xa72f, "\xea\x9c\xaf", "\xea\x9c\xae", "\xea\x9c\xae"},
{0xa732, "\xea\x9c\xb3", "\xea\x9c\xb2", "\xea\x9c\xb2"},
{0xa733, "\xea\x9c\xb3", "\xea\x9c\xb2", "\xea\x9c\xb2"},
{0xa734, "\xea\x9c\xb5", "\xea\x9c\xb4", "\xea\x9c\xb4"},
{0xa735, "\xea\x9c\xb5", "\xea\x9c\xb4", "\xea\x9c\xb4"},
{0xa736, "\xea\x9c\xb7", "\xea\x9c\xb6", "\xea\x9c\xb6"},
{0xa737, "\xea\x9c\xb7", "\xea\x9c\xb6", "\xea\x9c\xb6"},
{0xa738, "\xea\x9c\xb9", "\xea\x9c\xb8", "\xea\x9c\xb8"},
{0xa739, "\xea\x9c\xb9", "\xea\x9c\xb8", "\xea\x9c\xb8"},
{0xa73a, "\xea\x9c\xbb", "\xea\x9c\xba", "\xea\x9c\xba"},
{0xa73b, "\xea\x9c\xbb", "\xea\x9c\xba", "\xea\x9c\xba"},
{0xa73c, "\xea\x9c\xbd", "\xea\x9c\xbc", "\xea\x9c\xbc"},
{0xa73d, "\xea\x9c\xbd", "\xea\x9c\xbc", "\xea\x9c\xbc"},
{0xa73e, "\xea\x9c\xbf", "\xea\x9c\xbe", "\xea\x9c\xbe"},
{0xa73f, "\xea\x9c\xbf", "\xea\x9c\xbe", "\xea\x9c\xbe"},
{0xa740, "\xea\x9d\x81", "\xea\x9d\x80", "\xea\x9d\x80"},
{0xa741, "\xea\x9d\x81", "\xea\x9d\x80", "\xea\x9d\x80"},
{0xa742, "\xea\x9d\x83", "\xea\x9d\x82", "\xea\x9d\x82"},
{0xa743, "\xea\x9d\x83", "\xea\x9d\x82", "\xea\x9d\x82"},
{0xa744, "\xea\x9d\x85", "\xea\x9d\x84", "\xea\x9d\x84"},
{0xa745, "\xea\x9d\x85", "\xea\x9d\x84", "\xea\x9d\x84"},
{0xa746, "\xea\x9d\x87", "\xea\x9d\x86", "\xea\x9d\x86"},
{0xa747, "\xea\x9d\x87", "\xea\x9d\x86", "\xea\x9d\x86"},
{0xa748, "\xea\x9d\x89", "\xea\x9d\x88", "\xea\x9d\x88"},
{0xa749, "\xea\x9d\x89", "\xea\x9d\x88", "\xea\x9d\x88"},
{0xa74a, "\xea\x9d\x8b", "\xea\x9d\x8a", "\xea\x9d\x8a"},
{0xa74b, "\xea\x9d\x8b", "\xea\x9d\x8a", "\xea\x9d\x8a"},
{0xa74c, "\xea\x9d\x8d", "\xea\x9d\x8c", "\xea\x9d\x8c"},
{0xa74d, "\xea\x9d\x8d", "\xea\x9d\x8c", "\xea\x9d\x8c"},
{0xa74e, "\xea\x9d\x8f", "\xea\x9d\x8e", "\xea\x9d\x8e"},
{0xa74f, "\xea\x9d\x8f", "\xea\x9d\x8e", "\xea\x9d\x8e"},
{0xa750, "\xea\x9d\x91", "\xea\x9d\x90", "\xea\x9d\x90"},
{0xa751, "\xea\x9d\x91", "\xea\x9d\x90", "\xea\x9d\x90"},
{0xa752, "\xea\x9d\x93", "\xea\x9d\x92", "\xea\x9d\x92"},
{0xa753, "\xea\x9d\x93", "\xea\x9d\x92", "\xea\x9d\x92"},
{0xa754, "\xea\x9d\x95", "\xea\x9d\x94", "\xea\x9d\x94"},
{0xa755, "\xea\x9d\x95", "\xea\x9d\x94", "\xea\x9d\x94"},
{0xa756, "\xea\x9d\x97", "\xea\x9d\x96", "\xea\x9d\x96"},
{0xa757, "\xea\x9d\x97", "\xea\x9d\x96", "\xea\x9d\x96"},
{0xa758, "\xea\x9d\x99", "\xea\x9d\x98", "\xea\x9d\x98"},
{0xa759, "\xea\x9d\x99", "\xea\x9d\x98", "\xea\x9d\x98"},
{0xa75a, "\xea\x9d\x9b", "\xea\x9d\x9a", "\xea\x9d\x9a"},
{0xa75b, "\xea\x9d\x9b", "\xea\x9d\x9a", "\xea\x9d\x9a"},
{0xa75c, "\xea\x9d\x9d", "\xea\x9d\x9c", "\xea\x9d\x9c"},
{0xa75d, "\xea\x9d\x9d", "\xea\x9d\x9c", "\xea\x9d\x9c"},
{0xa75e, "\xea\x9d\x9f", "\xea\x9d\x9e", "\xea\x9d\x9e"},
{0xa75f, "\xea\x9d\x9f", "\xea\x9d\x9e", "\xea\x9d\x9e"},
{0xa760, "\xea\x9d\xa1", "\xea\x9d\xa0", "\xea\x9d\xa0"},
{0xa761, "\xea\x9d\xa1", "\xea\x9d\xa0", "\xea\x9d\xa0"},
{0xa762, "\xea\x9d\xa3", "\xea\x9d\xa2", "\xea\x9d\xa2"},
{0xa763, "\xea\x9d\xa3", "\xea\x9d\xa2", "\xea\x9d\xa2"},
{0xa764, "\xea\x9d\xa5", "\xea\x9d\xa4", "\xea\x9d\xa4"},
{0xa765, "\xea\x9d\xa5", "\xea\x9d\xa4", "\xea\x9d\xa4"},
{0xa766, "\xea\x9d\xa7", "\xea\x9d\xa6", "\xea\x9d\xa6"},
{0xa767, "\xea\x9d\xa7", "\xea\x9d\xa6", "\xea\x9d\xa6"},
{0xa768, "\xea\x9d\xa9", "\xea\x9d\xa8", "\xea\x9d\xa8"},
{0xa769, "\xea\x9d\xa9", "\xea\x9d\xa8", "\xea\x9d\xa8"},
{0xa76a, "\xea\x9d\xab", "\xea\x9d\xaa", "\xea\x9d\xaa"},
{0xa76b, "\xea\x9d\xab", "\xea\x9d\xaa", "\xea\x9d\xaa"},
{0xa76c, "\xea\x9d\xad", "\xea\x9d\xac", "\xea\x9d\xac"},
{0xa76d, "\xea\x9d\xad", "\xea\x9d\xac", "\xea\x9d\xac"},
{0xa76e, "\xea\x9d\xaf", "\xea\x9d\xae", "\xea\x9d\xae"},
{0xa76f, "\xea\x9d\xaf", "\xea\x9d\xae", "\xea\x9d\xae"},
{0xa779, "\xea\x9d\xba", "\xea\x9d\xb9", "\xea\x9d\xb9"},
{0xa77a, "\xea\x9d\xba", "\xea\x9d\xb9", "\xea\x9d\xb9"},
{0xa77b, "\xea\x9d\xbc", "\xea\x9d\xbb", "\xea\x9d\xbb"},
{0xa77c, "\xea\x9d\xbc", "\xea\x9d\xbb", "\xea\x9d\xbb"},
{0xa77d, "\xe1\xb5\xb9", "\xea\x9d\xbd", "\xea\x9d\xbd"},
{0xa77e, "\xea\x9d\xbf", "\xea\x9d\xbe", "\xea\x9d\xbe"},
{0xa77f, "\xea\x9d\xbf", "\xea\x9d\xbe", "\xea\x9d\xbe"},
{0xa780, "\xea\x9e\x81", "\xea\x9e\x80", "\xea\x9e\x80"},
{0xa781, "\xea\x9e\x81", "\xea\x9e\x80", "\xea\x9e\x80"},
{0xa782, "\xea\x9e\x83", "\xea\x9e\x82", "\xea\x9e\x82"},
{0xa783, "\xea\x9e\x83", "\xea\x9e\x82", "\xea\x9e\x82"},
{0xa784, "\xea\x9e\x85", "\xea\x9e\x84", "\xea\x9e\x84"},
{0xa785, "\xea\x9e\x85", "\xea\x9e\x84", "\xea\x9e\x84"},
{0xa786, "\xea\x9e\x87", "\xea\x9e\x86", "\xea\x9e\x86"},
{0xa787, "\xea\x9e\x87", "\xea\x9e\x86", "\xea\x9e\x86"},
{0xa78b, "\xea\x9e\x8c", "\xea\x9e\x8b", "\xea\x9e\x8b"},
{0xa78c, "\xea\x9e\x8c", "\xea\x9e\x8b", "\xea\x9e\x8b"},
{0xa78d, "\xc9\xa5", "\xea\x9e\x8d", "\xea\x9e\x8d"},
{0xa790, "\xea\x9e\x91", "\xea\x9e\x90", "\xea\x9e\x90"},
{0xa791, "\xea\x9e\x91", "\xea\x9e\x90", "\xea\x9e\x90"},
{0xa7a0, "\xea\x9e\xa1", "\xea\x9e\xa0", "\xea\x9e\xa0"},
{0xa7a1, "\xea\x9e\xa1", "\xea\x9e\xa0", "\xea\x9e\xa0"},
{0xa7a2, "\xea\x9e\xa3", "\xea\x9e\xa2", "\xea\x9e\xa2"},
{0xa7a3, "\xea\x9e\xa3", "\xea\x9e\xa2", "\xea\x9e\xa2"},
{0xa7a4, "\xea\x9e\xa5", "\xea\x9e\xa4", "\xea\x9e\xa4"},
{0xa7a5, "\xea\x9e\xa5", "\xea\x9e\xa4", "\xea\x9e\xa4"},
{0xa7a6, "\xea\x9e\xa7", "\xea\x9e\xa6", "\xea\x9e\xa6"},
{0xa7a7, "\xea\x9e\xa7", "\xea\x9e\xa6", "\xea\x9e\xa6"},
{0xa7a8, "\xea\x9e\xa9", "\xea\x9e\xa8", "\xea\x9e\xa8"},
{0xa7a9, "\xea\x9e\xa9", "\xea\x9e\xa8", "\xea\x9e\xa8"},
{0xfb00, "\xef\xac\x80", "\x46\x46", "\x46\x66"},
{0xfb01, "\xef\xac\x81", "\x46\x49", "\x46\x69"},
{0xfb02, "\xef\xac\x82", "\x46\x4c", "\x46\x6c"},
{0xfb03, "\xef\xac\x83", "\x46\x46\x49", "\x46\x66\x69"},
{0xfb04, "\xef\xac\x84", "\x46\x46\x4c", "\x46\x66\x6c"},
{0xfb05, "\xef\xac\x85", "\x53\x54", "\x53\x74"},
{0xfb06, "\xef\xac\x86", "\x53\x54", "\x53\x74"},
{0xfb13, "\xef\xac\x93", "\xd5\x84\xd5\x86", "\xd5\x84\xd5\xb6"},
{0xfb14, "\xef\xac\x94", "\xd5\x84\xd4\xb5", "\xd5\x84\xd5\xa5"},
{0xfb15, "\xef\xac\x95", "\xd5\x84\xd4\xbb", "\xd5\x84\xd5\xab"},
{0xfb16, "\xef\xac\x96", "\xd5\x8e\xd5\x86", "\xd5\x8e\xd5\xb6"},
{0xfb17, "\xef\xac\x97", "\xd5\x84\xd4\xbd", "\xd5\x84\xd5\xad"},
{0xff21, "\xef\xbd\x81", "\xef\xbc\xa1", "\xef\xbc\xa1"},
{0xff22, "\xef\xbd\x82", "\xef\xbc\xa2", "\xef\xbc\xa2"},
{0xff23, "\xef\xbd\x83", "\xef\xbc\xa3", "\xef\xbc\xa3"},
{0xff24, "\xef\xbd\x84", "\xef\xbc\xa4", "\xef\xbc\xa4"},
{0xff25, "\xef\xbd\x85", "\xef\xbc\xa5", "\xef\xbc\xa5"},
{0xff26, "\xef\xbd\x86", "\xef\xbc\xa6", "\xef\xbc\xa6"},
{0xff27, "\xef\xbd\x87", "\xef\xbc\xa7", "\xef\xbc\xa7"},
{0xff28, "\xef\xbd\x88", "\xef\xbc\xa8", "\xef\xbc\xa8"},
{0xff29, "\xef\xbd\x89", "\xef\xbc\xa9", "\xef\xbc\xa9"},
{0xff2a, "\xef\xbd\x8a", "\xef\xbc\xaa", "\xef\xbc\xaa"},
{0xff2b, "\xef\xbd\x8b", "\xef\xbc\xab", "\xef\xbc\xab"},
{0xff2c, "\xef\xbd\x8c", "\xef\xbc\xac", "\xef\xbc\xac"},
{0xff2d, "\xef\xbd\x8d", "\xef\xbc\xad", "\xef\xbc\xad"},
{0xff2e, "\xef\xbd\x8e", "\xef\xbc\xae", "\xef\xbc\xae"},
{0xff2f, "\xef\xbd\x8f", "\xef\xbc\xaf", "\xef\xbc\xaf"},
{0xff30, "\xef\xbd\x90", "\xef\xbc\xb0", "\xef\xbc\xb0"},
{0xff31, "\xef\xbd\x91", "\xef\xbc\xb1", "\xef\xbc\xb1"},
{0xff32, "\xef\xbd\x92", "\xef\xbc\xb2", "\xef\xbc\xb2"},
{0xff33, "\xef\xbd\x93", "\xef\xbc\xb3", "\xef\xbc\xb3"},
{0xff34, "\xef\xbd\x94", "\xef\xbc\xb4", "\xef\xbc\xb4"},
{0xff35, "\xef\xbd\x95", "\xef\xbc\xb5", "\xef\xbc\xb5"},
{0xff36, "\xef\xbd\x96", "\xef\xbc\xb6", "\xef\xbc\xb6"},
{0xff37, "\xef\xbd\x97", "\xef\xbc\xb7", "\xef\xbc\xb7"},
{0xff38, "\xef\xbd\x98", "\xef\xbc\xb8", "\xef\xbc\xb8"},
{0xff39, "\xef\xbd\x99", "\xef\xbc\xb9", "\xef\xbc\xb9"},
{0xff3a, "\xef\xbd\x9a", "\xef\xbc\xba", "\xef\xbc\xba"},
{0xff41, "\xef\xbd\x81", "\xef\xbc\xa1", "\xef\xbc\xa1"},
{0xff42, "\xef\xbd\x82", "\xef\xbc\xa2", "\xef\xbc\xa2"},
{0xff43, "\xef\xbd\x83", "\xef\xbc\xa3", "\xef\xbc\xa3"},
{0xff44, "\xef\xbd\x84", "\xef\xbc\xa4", "\xef\xbc\xa4"},
{0xff45, "\xef\xbd\x85", "\xef\xbc\xa5", "\xef\xbc\xa5"},
{0xff46, "\xef\xbd\x86", "\xef\xbc\xa6", "\xef\xbc\xa6"},
{0xff47, "\xef\xbd\x87", "\xef\xbc\xa7", "\xef\xbc\xa7"},
{0xff48, "\xef\xbd\x88", "\xef\xbc\xa8", "\xef\xbc\xa8"},
{0xff49, "\xef\xbd\x89", "\xef\xbc\xa9", "\xef\xbc\xa9"},
{0xff4a, "\xef\xbd\x8a", "\xef\xbc\xaa", "\xef\xbc\xaa"},
{0xff4b, "\xef\xbd\x8b", "\xef\xbc\xab", "\xef\xbc\xab"},
{0xff4c, "\xef\xbd\x8c", "\xef\xbc\xac", "\xef\xbc\xac"},
{0xff4d, "\xef\xbd\x8d", "\xef\xbc\xad", "\xef\xbc\xad"},
{0xff4e, "\xef\xbd\x8e", "\xef\xbc\xae", "\xef\xbc\xae"},
{0xff4f, "\xef\xbd\x8f", "\xef\xbc\xaf", "\xef\xbc\xaf"},
{0xff50, "\xef\xbd\x90", "\xef\xbc\xb0", "\xef\xbc\xb0"},
{0xff51, "\xef\xbd\x91", "\xef\xbc\xb1", "\xef\xbc\xb1"},
{0xff52, "\xef\xbd\x92", "\xef\xbc\xb2", "\xef\xbc\xb2"},
{0xff53, "\xef\xbd\x93", "\xef\xbc\xb3", "\xef\xbc\xb3"},
{0xff54, "\xef\xbd\x94", "\xef\xbc\xb4", "\xef\xbc\xb4"},
{0xff55, "\xef\xbd\x95", "\xef\xbc\xb5", "\xef\xbc\xb5"},
{0xff56, "\xef\xbd\x96", "\xef\xbc\xb6", "\xef\xbc\xb6"},
{0xff57, "\xef\xbd\x97", "\xef\xbc\xb7", "\xef\xbc\xb7"},
{0xff58, "\xef\xbd\x98", "\xef\xbc\xb8", "\xef\xbc\xb8"},
{0xff59, "\xef\xbd\x99", "\xef\xbc\xb9", "\xef\xbc\xb9"},
{0xff5a, "\xef\xbd\x9a", "\xef\xbc\xba", "\xef\xbc\xba"},
{0x10400, "\xf0\x90\x90\xa8", "\xf0\x90\x90\x80", "\xf0\x90\x90\x80"},
{0x10401, "\xf0\x90\x90\xa9", "\xf0\x90\x90\x81", "\xf0\x90\x90\x81"},
{0x10402, "\xf0\x90\x90\xaa", "\xf0\x90\x90\x82", "\xf0\x90\x90\x82"},
{0x10403, "\xf0\x90\x90\xab", "\xf0\x90\x90\x83", "\xf0\x90\x90\x83"},
{0x10404, "\xf0\x90\x90\xac", "\xf0\x90\x90\x84", "\xf0\x90\x90\x84"},
{0x10405, "\xf0\x90\x90\xad", "\xf0\x90\x90\x85", "\xf0\x90\x90\x85"},
{0x10406, "\xf0\x90\x90\xae", "\xf0\x90\x90\x86", "\xf0\x90\x90\x86"},
{0x10407, "\xf0\x90\x90\xaf", "\xf0\x90\x90\x87", "\xf0\x90\x90\x87"},
{0x10408, "\xf0\x90\x90\xb0", "\xf0\x90\x90\x88", "\xf0\x90\x90\x88"},
{0x10409, "\xf0\x90\x90\xb1", "\xf0\x90\x90\x89", "\xf0\x90\x90\x89"},
{0x1040a, "\xf0\x90\x90\xb2", "\xf0\x90\x90\x8a", "\xf0\x90\x90\x8a"},
{0x1040b, "\xf0\x90\x90\xb3", "\xf0\x90\x90\x8b", "\xf0\x90\x90\x8b"},
{0x1040c, "\xf0\x90\x90\xb4", "\xf0\x90\x90\x8c", "\xf0\x90\x90\x8c"},
{0x1040d, "\xf0\x90\x90\xb5", "\xf0\x90\x90\x8d", "\xf0\x90\x90\x8d"},
{0x1040e, "\xf0\x90\x90\xb6", "\xf0\x90\x90\x8e", "\xf0\x90\x90\x8e"},
{0x1040f, "\xf0\x90\x90\xb7", "\xf0\x90\x90\x8f", "\xf0\x90\x90\x8f"},
{0x10410, "\xf0\x90\x90\xb8", "\xf0\x90\x90\x90", "\xf0\x90\x90\x90"},
{0x10411, "\xf0\x90\x90\xb9", "\xf0\x90\x90\x91", "\xf0\x90\x90\x91"},
{0x10412, "\xf0\x90\x90\xba", "\xf0\x90\x90\x92", "\xf0\x90\x90\x92"},
{0x10413, "\xf0\x90\x90\xbb", "\xf0\x90\x90\x93", "\xf0\x90\x90\x93"},
{0x10414, "\xf0\x90\x90\xbc", "\xf0\x90\x90\x94", "\xf0\x90\x90\x94"},
{0x10415, "\xf0\x90\x90\xbd", "\xf0\x90\x90\x95", "\xf0\x90\x90\x95"},
{0x10416, "\xf0\x90\x90\xbe", "\xf0\x90\x90\x96", "\xf0\x90\x90\x96"},
{0x10417, "\xf0\x90\x90\xbf", "\xf0\x90\x90\x97", "\xf0\x90\x90\x97"},
{0x10418, "\xf0\x90\x91\x80", "\xf0\x90\x90\x98", "\xf0\x90\x90\x98"},
{0x10419, "\xf0\x90\x91\x81", "\xf0\x90\x90\x99", "\xf0\x90\x90\x99"},
{0x1041a, "\xf0\x90\x91\x82", "\xf0\x90\x90\x9a", "\xf0\x90\x90\x9a"},
{0x1041b, "\xf0\x90\x91\x83", "\xf0\x90\x90\x9b", "\xf0\x90\x90\x9b"},
{0x1041c, "\xf0\x90\x91\x84", "\xf0\x90\x90\x9c", "\xf0\x90\x90\x9c"},
{0x1041d, "\xf0\x90\x91\x85", "\xf0\x90\x90\x9d", "\xf0\x90\x90\x9d"},
{0x1041e, "\xf0\x90\x91\x86", "\xf0\x90\x90\x9e", "\xf0\x90\x90\x9e"},
{0x1041f, "\xf0\x90\x91\x87", "\xf0\x90\x90\x9f", "\xf0\x90\x90\x9f"},
{0x10420, "\xf0\x90\x91\x88", "\xf0\x90\x90\xa0", "\xf0\x90\x90\xa0"},
{0x10421, "\xf0\x90\x91\x89", "\xf0\x90\x90\xa1", "\xf0\x90\x90\xa1"},
{0x10422, "\xf0\x90\x91\x8a", "\xf0\x90\x90\xa2", "\xf0\x90\x90\xa2"},
{0x10423, "\xf0\x90\x91\x8b", "\xf0\x90\x90\xa3", "\xf0\x90\x90\xa3"},
{0x10424, "\xf0\x90\x91\x8c", "\xf0\x90\x90\xa4", "\xf0\x90\x90\xa4"},
{0x10425, "\xf0\x90\x91\x8d", "\xf0\x90\x90\xa5", "\xf0\x90\x90\xa5"},
{0x10426, "\xf0\x90\x91\x8e", "\xf0\x90\x90\xa6", "\xf0\x90\x90\xa6"},
{0x10427, "\xf0\x90\x91\x8f", "\xf0\x90\x90\xa7", "\xf0\x90\x90\xa7"},
{0x10428, "\xf0\x90\x90\xa8", "\xf0\x90\x90\x80", "\xf0\x90\x90\x80"},
{0x10429, "\xf0\x90\x90\xa9", "\xf0\x90\x90\x81", "\xf0\x90\x90\x81"},
{0x1042a, "\xf0\x90\x90\xaa", "\xf0\x90\x90\x82", "\xf0\x90\x90\x82"},
{0x1042b, "\xf0\x90\x90\xab", "\xf0\x90\x90\x83", "\xf0\x90\x90\x83"},
{0x1042c, "\xf0\x90\x90\xac", "\xf0\x90\x90\x84", "\xf0\x90\x90\x84"},
{0x1042d, "\xf0\x90\x90\xad", "\xf0\x90\x90\x85", "\xf0\x90\x90\x85"},
{0x1042e, "\xf0\x90\x90\xae", "\xf0\x90\x90\x86", "\xf0\x90\x90\x86"},
{0x1042f, "\xf0\x90\x90\xaf", "\xf0\x90\x90\x87", "\xf0\x90\x90\x87"},
{0x10430, "\xf0\x90\x90\xb0", "\xf0\x90\x90\x88", "\xf0\x90\x90\x88"},
{0x10431, "\xf0\x90\x90\xb1", "\xf0\x90\x90\x89", "\xf0\x90\x90\x89"},
{0x10432, "\xf0\x90\x90\xb2", "\xf0\x90\x90\x8a", "\xf0\x90\x90\x8a"},
{0x10433, "\xf0\x90\x90\xb3", "\xf0\x90\x90\x8b", "\xf0\x90\x90\x8b"},
{0x10434, "\xf0\x90\x90\xb4", "\xf0\x90\x90\x8c", "\xf0\x90\x90\x8c"},
{0x10435, "\xf0\x90\x90\xb5", "\xf0\x90\x90\x8d", "\xf0\x90\x90\x8d"},
{0x10436, "\xf0\x90\x90\xb6", "\xf0\x90\x90\x8e", "\xf0\x90\x90\x8e"},
{0x10437, "\xf0\x90\x90\xb7", "\xf0\x90\x90\x8f", "\xf0\x90\x90\x8f"},
{0x10438, "\xf0\x90\x90\xb8", "\xf0\x90\x90\x90", "\xf0\x90\x90\x90"},
{0x10439, "\xf0\x90\x90\xb9", "\xf0\x90\x90\x91", "\xf0\x90\x90\x91"},
{0x1043a, "\xf0\x90\x90\xba", "\xf0\x90\x90\x92", "\xf0\x90\x90\x92"},
{0x1043b, "\xf0\x90\x90\xbb", "\xf0\x90\x90\x93", "\xf0\x90\x90\x93"},
{0x1043c, "\xf0\x90\x90\xbc", "\xf0\x90\x90\x94", "\xf0\x90\x90\x94"},
{0x1043d, "\xf0\x90\x90\xbd", "\xf0\x90\x90\x95", "\xf0\x90\x90\x95"},
{0x1043e, "\xf0\x90\x90\xbe", "\xf0\x90\x90\x96", "\xf0\x90\x90\x96"},
{0x1043f, "\xf0\x90\x90\xbf", "\xf0\x90\x90\x97", "\xf0\x90\x90\x97"},
{0x10440, "\xf0\x90\x91\x80", "\xf0\x90\x90\x98", "\xf0\x90\x90\x98"},
{0x10441, "\xf0\x90\x91\x81", "\xf0\x90\x90\x99", "\xf0\x90\x90\x99"},
{0x10442, "\xf0\x90\x91\x82", "\xf0\x90\x90\x9a", "\xf0\x90\x90\x9a"},
{0x10443, "\xf0\x90\x91\x83", "\xf0\x90\x90\x9b", "\xf0\x90\x90\x9b"},
{0x10444, "\xf0\x90\x91\x84", "\xf0\x90\x90\x9c", "\xf0\x90\x90\x9c"},
{0x10445, "\xf0\x90\x91\x85", "\xf0\x90\x90\x9d", "\xf0\x90\x90\x9d"},
{0x10446, "\xf0\x90\x91\x86", "\xf0\x90\x90\x9e", "\xf0\x90\x90\x9e"},
{0x10447, "\xf0\x90\x91\x87", "\xf0\x90\x90\x9f", "\xf0\x90\x90\x9f"},
{0x10448, "\xf0\x90\x91\x88", "\xf0\x90\x90\xa0", "\xf0\x90\x90\xa0"},
{0x10449, "\xf0\x90\x91\x89", "\xf0\x90\x90\xa1", "\xf0\x90\x90\xa1"},
{0x1044a, "\xf0\x90\x91\x8a", "\xf0\x90\x90\xa2", "\xf0\x90\x90\xa2"},
{0x1044b, "\xf0\x90\x91\x8b", "\xf0\x90\x90\xa3", "\xf0\x90\x90\xa3"},
{0x1044c, "\xf0\x90\x91\x8c", "\xf0\x90\x90\xa4", "\xf0\x90\x90\xa4"},
{0x1044d, "\xf0\x90\x91\x8d", "\xf0\x90\x90\xa5", "\xf0\x90\x90\xa5"},
{0x1044e, "\xf0\x90\x91\x8e", "\xf0\x90\x90\xa6", "\xf0\x90\x90\xa6"},
{0x1044f, "\xf0\x90\x91\x8f", "\xf0\x90\x90\xa7", "\xf0\x90\x90\xa7"},
