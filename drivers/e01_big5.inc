0x80,0x80, 0xAF,0xAF, 0x2CD,0x2CD, 0x2027,0x2027, 0x20AC,0x20AC, 0x2215,0x2215, 0x2295,0x2295, 0x2299,0x2299, 0x2551,0x255D, 0x255F,0x2560, 
0x2562,0x2569, 0x256B,0x256C, 0x2574,0x2574, 0x2593,0x2593, 0x58BB,0x58BB, 0x5AFA,0x5AFA, 0x6052,0x6052, 0x7881,0x7881, 0x7CA7,0x7CA7, 0x88CF,0x88CF, 
0x92B9,0x92B9, 0xF6B1,0xF848, 0xFE51,0xFE51, 0xFE68,0xFE68, 0xFF0F,0xFF0F, 0xFF3C,0xFF3C, 0xFF5E,0xFF5E, 0xFFE0,0xFFE1, 0xFFE3,0xFFE3, 0xFFE5,0xFFE5, 
