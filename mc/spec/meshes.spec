ball 181 320 12.331 -1.000 -1.000 -1.000 1.000 1.000 1.000 -0.038 0.014 -0.000
bumperBase 517 784 8.841 -0.836 -0.816 -0.004 0.835 0.803 0.874 -0.000 -0.000 0.498
bumperCap 839 398 9.231 -1.610 -1.608 0.678 1.611 1.613 1.005 0.002 0.011 0.845
bumperRing 481 789 7.105 -1.243 -1.243 -0.122 1.242 1.243 0.746 -0.026 0.002 0.602
bumperSocket 482 744 8.786 -1.241 -1.243 4.999 1.244 1.242 5.061 0.000 0.000 5.025
gate1Bracket 184 172 0.420 -0.515 -0.069 -0.068 0.517 0.111 0.088 0.001 -0.000 -0.014
gate1Wire 186 336 0.060 -0.384 -0.006 -0.352 0.384 0.006 0.008 -0.000 0.000 -0.170
gate2Bracket 184 172 0.420 -0.515 -0.069 -0.068 0.517 0.111 0.088 0.001 -0.000 -0.014
gate2Wire 144 224 0.054 -0.368 -0.005 -0.341 0.368 0.005 0.009 0.000 0.000 -0.125
gate3Bracket 184 172 0.420 -0.515 -0.069 -0.068 0.517 0.111 0.088 0.001 -0.000 -0.014
gate3Wire 70 52 0.411 -0.362 -0.005 -0.350 0.361 0.005 0.007 0.006 -0.000 -0.093
gate4Bracket 184 172 0.420 -0.515 -0.069 -0.068 0.517 0.111 0.088 0.001 -0.000 -0.014
gate4Wire 62 44 0.457 -0.380 -0.005 -0.490 0.380 0.005 0.010 0.004 0.000 -0.140
kicker1Kicker 192 96 3.291 -0.975 -0.975 -0.478 0.975 0.975 0.022 -0.000 0.000 -0.125
kicker1Plate 49 24 2.714 -0.952 -0.934 0.002 0.918 0.936 0.002 0.002 0.001 0.002
kicker2Kicker 373 258 10.253 -1.215 -1.215 -1.204 1.215 1.215 -0.004 -0.005 -0.040 -0.678
kicker2Plate 49 24 4.036 -1.161 -1.138 0.003 1.119 1.141 0.003 0.003 0.002 0.003
kicker3Kicker 42 42 3.574 -0.927 -0.930 -0.624 0.904 0.918 -0.006 0.062 0.084 -0.315
kicker3Plate 49 24 2.714 -0.952 -0.934 0.002 0.918 0.936 0.002 0.002 0.001 0.002
kicker4Kicker 1243 1194 18.906 -1.021 -1.018 -1.130 1.004 1.040 0.013 0.097 0.103 -0.557
kicker4Plate 49 24 3.126 -1.021 -1.002 0.002 0.985 1.005 0.002 0.002 0.001 0.002
kicker5Kicker 2333 2100 16.496 -1.015 -1.008 -0.991 1.004 1.012 0.017 0.012 -0.036 -0.407
kicker5Plate 49 24 3.126 -1.021 -1.002 0.002 0.985 1.005 0.002 0.002 0.001 0.002
kicker6Kicker 657 698 13.909 -1.002 -0.998 -0.636 1.005 1.009 0.007 -0.001 0.032 -0.390
kicker6Plate 49 24 3.055 -1.010 -0.990 0.002 0.974 0.993 0.002 0.002 0.001 0.002
light_bulb 67 120 3.993 -0.475 -0.475 -0.013 0.475 0.475 1.413 0.000 0.000 0.778
light_socket 592 1128 4.775 -0.478 -0.478 -0.759 0.478 0.478 0.759 -0.007 -0.002 0.197
spinnerBracket 152 140 1.263 -0.967 -0.096 -0.070 0.967 0.096 0.476 0.000 0.000 0.162
spinnerPlate 228 304 1.059 -0.700 -0.028 -0.281 0.698 0.028 0.281 -0.003 -0.000 -0.021
target1 88 64 6.153 -0.525 -0.250 -0.163 0.525 0.250 1.737 0.000 0.025 0.920
target2 36 22 5.691 -0.525 -0.175 -0.165 0.525 0.175 1.735 0.000 -0.017 0.560
target3 209 174 8.293 -0.624 -0.209 -0.283 0.600 0.221 1.792 -0.012 0.088 1.036
target4 161 126 9.050 -0.694 -0.208 -0.287 0.657 0.222 1.788 -0.025 0.073 1.029
target5 302 314 12.345 -0.812 -0.238 -0.105 0.788 0.212 1.795 -0.012 0.029 1.100
target6 302 314 10.740 -0.617 -0.237 -0.103 0.583 0.213 1.797 -0.017 0.030 1.102
target7 68 58 4.587 -0.550 -0.100 -0.160 0.550 0.100 1.790 0.000 0.013 0.846
target8 302 314 9.036 -0.387 -0.237 -0.126 0.388 0.213 1.774 0.000 0.029 1.079
target9 145 102 7.413 -0.340 -0.320 -0.103 0.310 0.111 1.972 -0.015 -0.046 1.191
trigger1 49 72 1355.684 -1.284 -46.499 -29.149 1.284 46.499 38.582 0.092 3.524 10.118
trigger2 231 170 4.904 -0.968 -0.926 -0.037 0.968 0.931 0.292 0.000 0.002 0.132
trigger3 49 72 1355.684 -1.284 -54.192 -43.537 1.284 46.793 42.798 0.092 7.197 7.936
trigger4 528 316 6.902 -0.996 -0.978 4.894 0.955 0.999 5.109 -0.010 0.003 5.018
trigger5 49 72 1355.684 -1.284 -42.542 -61.397 1.284 54.357 30.811 0.092 -9.203 -24.485
trigger6 203 266 876.514 -1.252 -34.875 -7.592 1.333 45.610 23.028 0.018 4.578 10.362
trigger7 152 104 3819.946 -1.707 -35.007 -21.894 1.707 45.553 22.873 0.000 4.826 5.509
