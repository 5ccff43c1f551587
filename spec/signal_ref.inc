    {GPS, 1540 * 1.023e6, "GPS L1CA", 1023, 1.023e6, 1, 0., 1, 1, 4200.0},  /* 0 GPS_L1CA */
    {GPS, 1200 * 1.023e6, "GPS L2CM", 20460, 1.023e6, 20, -0.25, 0, 1, 4200.0},  /* 1 GPS_L2CM */
    {SBAS, 1540 * 1.023e6, "SBAS L1", 1023, 1.023e6, 1, 0., 1, 1, 210.0},  /* 2 SBAS_L1CA */
    {GLO, 1602.0e6, "GLO L1OF", 511, 0.511e6, 1, 0., 1, 1, 4820.0},  /* 3 GLO_L1OF */
    {GLO, 1246.0e6, "GLO L2OF", 511, 0.511e6, 1, 0., 0, 1, 4820.0},  /* 4 GLO_L2OF */
    {GPS, 1540 * 1.023e6, "GPS L1P", 0, 0, 0, 0.25, 0, 0, 4200.0},  /* 5 GPS_L1P */
    {GPS, 1200 * 1.023e6, "GPS L2P", 0, 0, 0, 0., 0, 0, 4200.0},  /* 6 GPS_L2P */
    {GPS, 1200 * 1.023e6, "GPS L2CL", 1534500, 1.023e6, 1500, -0.25, 0, 0, 4200.0},  /* 7 GPS_L2CL */
    {GPS, 1200 * 1.023e6, "GPS L2C", 0, 0, 0, -0.25, 0, 0, 4200.0},  /* 8 GPS_L2CX */
    {GPS, 1150 * 1.023e6, "GPS L5I", 10230, 10.23e6, 1, 0., 0, 0, 4200.0},  /* 9 GPS_L5I */
    {GPS, 1150 * 1.023e6, "GPS L5Q", 0, 0, 0, -0.25, 0, 0, 4200.0},  /* 10 GPS_L5Q */
    {GPS, 1150 * 1.023e6, "GPS L5", 0, 0, 0, 0., 0, 0, 4200.0},  /* 11 GPS_L5X */
    {BDS, 1526 * 1.023e6, "BDS B1", 2046, 2.046e6, 1, 0., 1, 1, 4200.0},  /* 12 BDS2_B1 */
    {BDS, 1180 * 1.023e6, "BDS B2", 2046, 2.046e6, 1, 0., 0, 1, 4200.0},  /* 13 BDS2_B2 */
    {GAL, 1540 * 1.023e6, "GAL E1B", 4092, 1.023e6, 4, 0., 1, 1, 4000.0},  /* 14 GAL_E1B */
    {GAL, 1540 * 1.023e6, "GAL E1C", 0, 0, 0, 0.5, 0, 0, 4000.0},  /* 15 GAL_E1C */
    {GAL, 1540 * 1.023e6, "GAL E1", 0, 0, 0, 0., 0, 0, 4000.0},  /* 16 GAL_E1X */
    {GAL, 1250 * 1.023e6, "GAL E6B", 5115, 5.115e6, 1, 0., 0, 1, 4000.0},  /* 17 GAL_E6B */
    {GAL, 1250 * 1.023e6, "GAL E6C", 0, 0, 0, -0.5, 0, 0, 4000.0},  /* 18 GAL_E6C */
    {GAL, 1250 * 1.023e6, "GAL E6", 0, 0, 0, 0., 0, 0, 4000.0},  /* 19 GAL_E6X */
    {GAL, 1180 * 1.023e6, "GAL E5bI", 10230, 10.23e6, 1, 0., 0, 1, 4000.0},  /* 20 GAL_E7I */
    {GAL, 1180 * 1.023e6, "GAL E5bQ", 0, 0, 0, -0.25, 0, 0, 4000.0},  /* 21 GAL_E7Q */
    {GAL, 1180 * 1.023e6, "GAL E5b", 0, 0, 0, 0., 0, 0, 4000.0},  /* 22 GAL_E7X */
    {GAL, 1165 * 1.023e6, "GAL E8I", 0, 0, 0, 0., 0, 0, 4000.0},  /* 23 GAL_E8I */
    {GAL, 1165 * 1.023e6, "GAL E8Q", 0, 0, 0, -0.25, 0, 0, 4000.0},  /* 24 GAL_E8Q */
    {GAL, 1165 * 1.023e6, "GAL E8", 0, 0, 0, 0., 0, 0, 4000.0},  /* 25 GAL_E8X */
    {GAL, 1150 * 1.023e6, "GAL E5aI", 10230, 10.23e6, 1, 0., 0, 1, 4000.0},  /* 26 GAL_E5I */
    {GAL, 1150 * 1.023e6, "GAL E5aQ", 0, 0, 0, -0.25, 0, 0, 4000.0},  /* 27 GAL_E5Q */
    {GAL, 1150 * 1.023e6, "GAL E5a", 0, 0, 0, 0., 0, 0, 4000.0},  /* 28 GAL_E5X */
    {GLO, 1602.0e6, "GLO L1P", 0, 0, 0, 0.25, 0, 0, 4820.0},  /* 29 GLO_L1P */
    {GLO, 1246.0e6, "GLO L2P", 0, 0, 0, 0.25, 0, 0, 4820.0},  /* 30 GLO_L2P */
    {QZS, 1540 * 1.023e6, "QZS L1CA", 1023, 1.023e6, 1, 0., 1, 1, 1200.0},  /* 31 QZS_L1CA */
    {QZS, 1540 * 1.023e6, "QZS L1CI", 10230, 1.023e6, 10, 0., 0, 0, 4200.0},  /* 32 QZS_L1CI */
    {QZS, 1540 * 1.023e6, "QZS L1CQ", 0, 0, 0, 0.25, 0, 0, 4200.0},  /* 33 QZS_L1CQ */
    {QZS, 1540 * 1.023e6, "QZS L1CX", 0, 0, 0, 0.25, 0, 0, 4200.0},  /* 34 QZS_L1CX */
    {QZS, 1200 * 1.023e6, "QZS L2CM", 20460, 1.023e6, 20, 0., 0, 0, 1200.0},  /* 35 QZS_L2CM */
    {QZS, 1200 * 1.023e6, "QZS L2CL", 1534500, 1.023e6, 1500, 0., 0, 0, 1200.0},  /* 36 QZS_L2CL */
    {QZS, 1200 * 1.023e6, "QZS L2C", 0, 0, 0, 0., 0, 0, 1200.0},  /* 37 QZS_L2CX */
    {QZS, 1150 * 1.023e6, "QZS L5I", 10230, 10.23e6, 1, 0., 0, 0, 1200.0},  /* 38 QZS_L5I */
    {QZS, 1150 * 1.023e6, "QZS L5Q", 0, 0, 0, -0.25, 0, 0, 1200.0},  /* 39 QZS_L5Q */
    {QZS, 1150 * 1.023e6, "QZS L5", 0, 0, 0, 0., 0, 0, 1200.0},  /* 40 QZS_L5X */
    {SBAS, 1150 * 1.023e6, "SBAS L5I", 10230, 10.23e6, 1, 0., 0, 1, 210.0},  /* 41 SBAS_L5I */
    {SBAS, 1150 * 1.023e6, "SBAS L5Q", 10230, 10.23e6, 1, -0.25, 0, 0, 210.0},  /* 42 SBAS_L5Q */
    {SBAS, 1150 * 1.023e6, "SBAS L5", 10230, 10.23e6, 1, 0., 0, 0, 210.0},  /* 43 SBAS_L5X */
    {BDS, 1540 * 1.023e6, "BDS3 B1CI", 10230, 1.023e6, 10, 0., 0, 0, 4161.818},  /* 44 BDS3_B1CI */
    {BDS, 1540 * 1.023e6, "BDS3 B1CQ", 0, 0, 0, 0., 0, 0, 4161.818},  /* 45 BDS3_B1CQ */
    {BDS, 1540 * 1.023e6, "BDS3 B1C", 0, 0, 0, 0., 0, 0, 4161.818},  /* 46 BDS3_B1CX */
    {BDS, 1150 * 1.023e6, "BDS3 B5I", 10230, 10.23e6, 1, 0., 0, 0, 4200.0},  /* 47 BDS3_B5I */
    {BDS, 1150 * 1.023e6, "BDS3 B5Q", 0, 0, 0, 0., 0, 0, 4200.0},  /* 48 BDS3_B5Q */
    {BDS, 1150 * 1.023e6, "BDS3 B5", 0, 0, 0, 0., 0, 0, 4200.0},  /* 49 BDS3_B5X */
    {BDS, 1180 * 1.023e6, "BDS3 B7I", 10230, 10.23e6, 1, 0., 0, 0, 4200.0},  /* 50 BDS3_B7I */
    {BDS, 1180 * 1.023e6, "BDS3 B7Q", 0, 0, 0, -0.25, 0, 0, 4200.0},  /* 51 BDS3_B7Q */
    {BDS, 1180 * 1.023e6, "BDS3 B7", 10230, 10.23e6, 1, 0., 0, 0, 4200.0},  /* 52 BDS3_B7X */
    {BDS, 1240 * 1.023e6, "BDS3 B3I", 10230, 10.23e6, 1, 0., 0, 0, 4200.0},  /* 53 BDS3_B3I */
    {BDS, 1240 * 1.023e6, "BDS3 B3Q", 0, 0, 0, -0.25, 0, 0, 4200.0},  /* 54 BDS3_B3Q */
    {BDS, 1240 * 1.023e6, "BDS3 B3", 0, 0, 0, 0., 0, 0, 4200.0},  /* 55 BDS3_B3X */
    {GPS, 1540 * 1.023e6, "GPS L1CI", 10230, 1.023e6, 10, 0.25, 0, 0, 4200.0},  /* 56 GPS_L1CI */
    {GPS, 1540 * 1.023e6, "GPS L1CQ", 0, 0, 0, 0.25, 0, 0, 4200.0},  /* 57 GPS_L1CQ */
    {GPS, 1540 * 1.023e6, "GPS L1C", 0, 0, 0, 0.25, 0, 0, 4200.0},  /* 58 GPS_L1CX */
    {GPS, 1540 * 1.023e6, "GPS AUX", 1023, 1.023e6, 1, 0., 0, 0, 4200.0},  /* 59 AUX_GPS */
    {SBAS, 1540 * 1.023e6, "SBAS AUX", 1023, 1.023e6, 1, 0., 0, 0, 210.0},  /* 60 AUX_SBAS */
    {GAL, 1540 * 1.023e6, "GAL AUX", 4092, 1.023e6, 4, 0., 0, 0, 4000.0},  /* 61 AUX_GAL */
    {QZS, 1540 * 1.023e6, "QZS AUX", 1023, 1.023e6, 1, 0., 0, 0, 1200.0},  /* 62 AUX_QZS */
    {BDS, 1526 * 1.023e6, "BDS AUX", 2046, 2.046e6, 1, 0., 0, 0, 4200.0},  /* 63 AUX_BDS */
