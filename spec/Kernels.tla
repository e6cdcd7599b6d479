---- MODULE Kernels ----
(* generated by tools/gen_kernels.py: KR[n][f+1][t+1], KI[n][f+1][t+1] at scale 100000;
   gain-corrected symmetric Hamming window times the DFT twiddle factor, divided by n; WN[n][t+1] = window at scale 100000 *)
EXTENDS Integers
KR == [n \in 4..10 |-> CASE n = 4 -> <<<<4706, 45294, 45294, 4706>>, <<4706, 0, -45294, 0>>, <<4706, -45294, 45294, -4706>>, <<4706, 0, -45294, 0>>>>
   [] n = 5 -> <<<<3571, 24107, 44643, 24107, 3571>>, <<3571, 7450, -36117, -19503, 1104>>, <<3571, -19503, 13795, 7450, -2889>>, <<3571, -19503, 13795, 7450, -2889>>, <<3571, 7450, -36117, -19503, 1104>>>>
   [] n = 6 -> <<<<2878, 14311, 32811, 32811, 14311, 2878>>, <<2878, 7156, -16406, -32811, -7156, 1439>>, <<2878, -7156, -16406, 32811, -7156, -1439>>, <<2878, -14311, 32811, -32811, 14311, -2878>>, <<2878, -7156, -16406, 32811, -7156, -1439>>, <<2878, 7156, -16406, -32811, -7156, 1439>>>>
   [] n = 7 -> <<<<2410, 9337, 23193, 30120, 23193, 9337, 2410>>, <<2410, 5822, -5161, -27138, -20896, -2078, 1502>>, <<2410, -2078, -20896, 18780, 14460, -8413, -536>>, <<2410, -8413, 14460, -6702, -5161, 5822, -2171>>, <<2410, -8413, 14460, -6702, -5161, 5822, -2171>>, <<2410, -2078, -20896, 18780, 14460, -8413, -536>>, <<2410, 5822, -5161, -27138, -20896, -2078, 1502>>>>
   [] n = 8 -> <<<<2073, 6559, 16641, 24727, 24727, 16641, 6559, 2073>>, <<2073, 4638, 0, -17484, -24727, -11767, 0, 1466>>, <<2073, 0, -16641, 0, 24727, 0, -6559, 0>>, <<2073, -4638, 0, 17484, -24727, 11767, 0, -1466>>, <<2073, -6559, 16641, -24727, 24727, -16641, 6559, -2073>>, <<2073, -4638, 0, 17484, -24727, 11767, 0, -1466>>, <<2073, 0, -16641, 0, 24727, 0, -6559, 0>>, <<2073, 4638, 0, -17484, -24727, -11767, 0, 1466>>>>
   [] n = 9 -> <<<<1818, 4880, 12273, 19665, 22727, 19665, 12273, 4880, 1818>>, <<1818, 3738, 2131, -9833, -21357, -18479, -6136, 847, 1393>>, <<1818, 847, -11533, -9833, 17410, 15064, -6136, -4586, 316>>, <<1818, -2440, -6136, 19665, -11364, -9833, 12273, -2440, -909>>, <<1818, -4586, 9401, -9833, 3947, 3415, -6136, 3738, -1709>>, <<1818, -4586, 9401, -9833, 3947, 3415, -6136, 3738, -1709>>, <<1818, -2440, -6136, 19665, -11364, -9833, 12273, -2440, -909>>, <<1818, 847, -11533, -9833, 17410, 15064, -6136, -4586, 316>>, <<1818, 3738, 2131, -9833, -21357, -18479, -6136, 847, 1393>>>>
   [] n = 10 -> <<<<1619, 3798, 9314, 15587, 19681, 19681, 15587, 9314, 3798, 1619>>, <<1619, 3073, 2878, -4817, -15923, -19681, -12610, -2878, 1174, 1310>>, <<1619, 1174, -7535, -12610, 6082, 19681, 4817, -7535, -3073, 500>>, <<1619, -1174, -7535, 12610, 6082, -19681, 4817, 7535, -3073, -500>>, <<1619, -3073, 2878, 4817, -15923, 19681, -12610, 2878, 1174, -1310>>, <<1619, -3798, 9314, -15587, 19681, -19681, 15587, -9314, 3798, -1619>>, <<1619, -3073, 2878, 4817, -15923, 19681, -12610, 2878, 1174, -1310>>, <<1619, -1174, -7535, 12610, 6082, -19681, 4817, 7535, -3073, -500>>, <<1619, 1174, -7535, -12610, 6082, 19681, 4817, -7535, -3073, 500>>, <<1619, 3073, 2878, -4817, -15923, -19681, -12610, -2878, 1174, 1310>>>>]
KI == [n \in 4..10 |-> CASE n = 4 -> <<<<0, 0, 0, 0>>, <<0, -45294, 0, 4706>>, <<0, 0, 0, 0>>, <<0, 45294, 0, -4706>>>>
   [] n = 5 -> <<<<0, 0, 0, 0, 0>>, <<0, -22927, -26240, 14170, 3397>>, <<0, -14170, 42458, -22927, 2099>>, <<0, 14170, -42458, 22927, -2099>>, <<0, 22927, 26240, -14170, -3397>>>>
   [] n = 6 -> <<<<0, 0, 0, 0, 0, 0>>, <<0, -12394, -28415, 0, 12394, 2492>>, <<0, -12394, 28415, 0, -12394, 2492>>, <<0, 0, 0, 0, 0, 0>>, <<0, 12394, -28415, 0, 12394, -2492>>, <<0, 12394, 28415, 0, -12394, -2492>>>>
   [] n = 7 -> <<<<0, 0, 0, 0, 0, 0, 0>>, <<0, -7300, -22611, -13069, 10063, 9103, 1884>>, <<0, -9103, 10063, 23549, -18133, -4051, 2349>>, <<0, -4051, 18133, -29365, 22611, -7300, 1046>>, <<0, 4051, -18133, 29365, -22611, 7300, -1046>>, <<0, 9103, -10063, -23549, 18133, 4051, -2349>>, <<0, 7300, 22611, 13069, -10063, -9103, -1884>>>>
   [] n = 8 -> <<<<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, -4638, -16641, -17484, 0, 11767, 6559, 1466>>, <<0, -6559, 0, 24727, 0, -16641, 0, 2073>>, <<0, -4638, 16641, -17484, 0, 11767, -6559, 1466>>, <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 4638, -16641, 17484, 0, -11767, 6559, -1466>>, <<0, 6559, 0, -24727, 0, 16641, 0, -2073>>, <<0, 4638, 16641, 17484, 0, -11767, -6559, -1466>>>>
   [] n = 9 -> <<<<0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, -3137, -12086, -17031, -7773, 6726, 10628, 4806, 1169>>, <<0, -4806, -4198, 17031, 14609, -12641, -10628, 1669, 1791>>, <<0, -4226, 10628, 0, -19682, 17031, 0, -4226, 1575>>, <<0, -1669, 7889, -17031, 22382, -19366, 10628, -3137, 622>>, <<0, 1669, -7889, 17031, -22382, 19366, -10628, 3137, -622>>, <<0, 4226, -10628, 0, 19682, -17031, 0, 4226, -1575>>, <<0, 4806, 4198, -17031, -14609, 12641, 10628, -1669, -1791>>, <<0, 3137, 12086, 17031, 7773, -6726, -10628, -4806, -1169>>>>
   [] n = 10 -> <<<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, -2232, -8858, -14824, -11568, 0, 9162, 8858, 3612, 952>>, <<0, -3612, -5475, 9162, 18718, 0, -14824, -5475, 2232, 1540>>, <<0, -3612, 5475, 9162, -18718, 0, 14824, -5475, -2232, 1540>>, <<0, -2232, 8858, -14824, 11568, 0, -9162, 8858, -3612, 952>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 2232, -8858, 14824, -11568, 0, 9162, -8858, 3612, -952>>, <<0, 3612, -5475, -9162, 18718, 0, -14824, 5475, 2232, -1540>>, <<0, 3612, 5475, -9162, -18718, 0, 14824, 5475, -2232, -1540>>, <<0, 2232, 8858, 14824, 11568, 0, -9162, -8858, -3612, -952>>>>]
WN == [n \in 4..10 |-> CASE n = 4 -> <<8000, 77000, 77000, 8000>>
   [] n = 5 -> <<8000, 54000, 100000, 54000, 8000>>
   [] n = 6 -> <<8000, 39785, 91215, 91215, 39785, 8000>>
   [] n = 7 -> <<8000, 31000, 77000, 100000, 77000, 31000, 8000>>
   [] n = 8 -> <<8000, 25319, 64236, 95445, 95445, 64236, 25319, 8000>>
   [] n = 9 -> <<8000, 21473, 54000, 86527, 100000, 86527, 54000, 21473, 8000>>
   [] n = 10 -> <<8000, 18762, 46012, 77000, 97226, 97226, 77000, 46012, 18762, 8000>>]
\* area of a latitude band per unit of longitude (scale 10^6): cos(lat_i) * spacing, n latitudes from pole to pole
LAT == [n \in {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 46, 61, 91} |-> CASE n = 3 -> <<0, 1570796, 0>>
   [] n = 4 -> <<0, 906900, 906900, 0>>
   [] n = 5 -> <<0, 555360, 785398, 555360, 0>>
   [] n = 6 -> <<0, 369316, 597566, 597566, 369316, 0>>
   [] n = 7 -> <<0, 261799, 453450, 523599, 453450, 261799, 0>>
   [] n = 8 -> <<0, 194727, 350885, 437547, 437547, 350885, 194727, 0>>
   [] n = 9 -> <<0, 150279, 277680, 362807, 392699, 362807, 277680, 150279, 0>>
   [] n = 10 -> <<0, 119388, 224375, 302300, 343763, 343763, 302300, 224375, 119388, 0>>
   [] n = 11 -> <<0, 97081, 184658, 254160, 298783, 314159, 298783, 254160, 184658, 97081, 0>>
   [] n = 12 -> <<0, 80463, 154407, 215842, 259790, 282692, 282692, 259790, 215842, 154407, 80463, 0>>
   [] n = 13 -> <<0, 67759, 130900, 185120, 226725, 252879, 261799, 252879, 226725, 185120, 130900, 67759, 0>>
   [] n = 14 -> <<0, 57833, 112305, 160251, 198883, 225957, 239899, 239899, 225957, 198883, 160251, 112305, 57833, 0>>
   [] n = 46 -> <<0, 4870, 9716, 14515, 19243, 23878, 28396, 32775, 36995, 41035, 44875, 48496, 51881, 55014, 57878, 60460, 62748, 64730, 66396, 67739, 68753, 69431, 69771, 69771, 69431, 68753, 67739, 66396, 64730, 62748, 60460, 57878, 55014, 51881, 48496, 44875, 41035, 36995, 32775, 28396, 23878, 19243, 14515, 9716, 4870, 0>>
   [] n = 61 -> <<0, 2740, 5473, 8191, 10886, 13552, 16180, 18764, 21297, 23771, 26180, 28517, 30776, 32951, 35036, 37024, 38911, 40691, 42360, 43913, 45345, 46653, 47833, 48882, 49797, 50576, 51216, 51715, 52073, 52288, 52360, 52288, 52073, 51715, 51216, 50576, 49797, 48882, 47833, 46653, 45345, 43913, 42360, 40691, 38911, 37024, 35036, 32951, 30776, 28517, 26180, 23771, 21297, 18764, 16180, 13552, 10886, 8191, 5473, 2740, 0>>
   [] n = 91 -> <<0, 1218, 2435, 3649, 4858, 6061, 7257, 8445, 9622, 10787, 11939, 13076, 14198, 15302, 16388, 17453, 18498, 19520, 20518, 21491, 22438, 23357, 24248, 25110, 25941, 26740, 27507, 28240, 28939, 29602, 30230, 30821, 31374, 31889, 32365, 32801, 33198, 33554, 33870, 34144, 34376, 34567, 34715, 34822, 34885, 34907, 34885, 34822, 34715, 34567, 34376, 34144, 33870, 33554, 33198, 32801, 32365, 31889, 31374, 30821, 30230, 29602, 28939, 28240, 27507, 26740, 25941, 25110, 24248, 23357, 22438, 21491, 20518, 19520, 18498, 17453, 16388, 15302, 14198, 13076, 11939, 10787, 9622, 8445, 7257, 6061, 4858, 3649, 2435, 1218, 0>>]
====
