// spglib's tabulated operations of the 530 spacegroup settings (9 rotation elements base 3, 3 translations base 12) and the names of the settings
#pragma once
namespace spgtable {
static const int operation[]={
0,16484,16484,3198,16484,3360,16484,3200,16484,16320,16484,1420536,16484,121298,16484,17022432,16484,3360,18439772,18426648,16484,3360,1551758,1538634,
16484,3360,18557870,18544746,16484,3200,1551758,1538474,16484,3200,17140694,17127410,16484,3200,18557870,18544586,16484,16320,17140694,17140530,16484,16320,18439772,18439608,
16484,16320,18557870,18557706,16484,16322,16484,16482,16484,3362,16484,134420,16484,17140532,16484,17022434,16484,17022594,16484,18439770,16484,1433658,16484,1420538,
16484,1538636,16484,121460,16484,16322,18439772,18439610,16484,16322,1551758,1551596,16484,16322,18557870,18557708,16484,16482,1551758,1551756,16484,16482,17140694,17140692,
16484,16482,18557870,18557868,16484,3362,17140694,17127572,16484,3362,18439772,18426650,16484,3362,18557870,18544748,16484,134420,18439772,18557708,16484,17140532,1551758,18439610,
16484,17022434,18557870,1551596,16484,17022434,1551758,18557708,16484,1551596,18439772,17140532,16484,134420,18557870,18439610,16484,17022594,1551758,18557868,16484,1551756,17140694,18439770,
16484,1433658,18557870,17140692,16484,1433658,17140694,18557868,16484,17140692,1551758,18439770,16484,17022594,18557870,1551756,16484,1420538,17140694,18544748,16484,1538636,18439772,17127572,
16484,121460,18557870,18426650,16484,121460,18439772,18544748,16484,1538636,17140694,18426650,16484,1420538,18557870,17127572,16484,3198,3360,16322,16484,3198,3200,16482,
16484,3198,16320,3362,16484,3198,1420536,1433498,16484,3198,121298,134580,16484,3198,17022432,17009474,16484,3198,3360,16322,18439772,18426486,18426648,18439610,
16484,3198,3360,16322,1551758,1538472,1538634,1551596,16484,3198,3360,16322,18557870,18544584,18544746,18557708,16484,3198,3200,16482,1551758,1538472,1538474,1551756,
16484,3198,3200,16482,17140694,17127408,17127410,17140692,16484,3198,3200,16482,18557870,18544584,18544586,18557868,16484,3198,16320,3362,17140694,17127408,17140530,17127572,
16484,3198,16320,3362,18439772,18426486,18439608,18426650,16484,3198,16320,3362,18557870,18544584,18557706,18544748,16484,3198,121458,134420,16484,3198,17127570,17140532,
16484,3198,17009472,17022434,16484,3198,17009312,17022594,16484,3198,18426488,18439770,16484,3198,1420376,1433658,16484,3198,1433496,1420538,16484,3198,1551594,1538636,
16484,3198,134418,121460,16484,3198,1538634,1551596,16484,3198,18544746,18557708,16484,3198,18426648,18439610,16484,3198,17127410,17140692,16484,3198,18544586,18557868,
16484,3198,1538474,1551756,16484,3198,18439608,18426650,16484,3198,18557706,18544748,16484,3198,17140530,17127572,16484,3198,121458,134420,18439772,18426486,18544746,18557708,
16484,3198,17127570,17140532,1551758,1538472,18426648,18439610,16484,3198,17009472,17022434,18557870,18544584,1538634,1551596,16484,3198,17009472,17022434,1551758,1538472,18544746,18557708,
16484,3198,1538634,1551596,18439772,18426486,17127570,17140532,16484,3198,121458,134420,18557870,18544584,18426648,18439610,16484,3198,17009312,17022594,1551758,1538472,18544586,18557868,
16484,3198,1538474,1551756,17140694,17127408,18426488,18439770,16484,3198,1420376,1433658,18557870,18544584,17127410,17140692,16484,3198,1420376,1433658,17140694,17127408,18544586,18557868,
16484,3198,17127410,17140692,1551758,1538472,18426488,18439770,16484,3198,17009312,17022594,18557870,18544584,1538474,1551756,16484,3198,1433496,1420538,17140694,17127408,18557706,18544748,
16484,3198,1551594,1538636,18439772,18426486,17140530,17127572,16484,3198,134418,121460,18557870,18544584,18439608,18426650,16484,3198,134418,121460,18439772,18426486,18557706,18544748,
16484,3198,1551594,1538636,17140694,17127408,18439608,18426650,16484,3198,1433496,1420538,18557870,18544584,17140530,17127572,16484,3200,16320,3360,16484,121298,16320,121458,
16484,17009312,17022432,3360,16484,3200,1433496,1420536,16484,3200,18439608,18426648,16484,1538474,16320,1538634,16484,17127410,17140530,3360,16484,17127410,18439608,1538634,
16484,121298,16320,121458,18439772,18544586,18439608,18544746,16484,17009312,17022432,3360,1551758,18544586,18557706,1538634,16484,3200,1433496,1420536,17140694,17127410,18557706,18544746,
16484,3200,16320,3360,18439772,18426488,18439608,18426648,16484,3200,16320,3360,1551758,1538474,1551594,1538634,16484,3200,16320,3360,17140694,17127410,17140530,17127570,
16484,3200,16320,3360,1551758,1538474,1551594,1538634,17140694,17127410,17140530,17127570,18439772,18426488,18439608,18426648,16484,3200,16320,3360,18557870,18544586,18557706,18544746,
16484,1420376,134418,1538634,18557870,17127410,18439608,17009472,16484,3200,3362,16322,16484,16482,16320,16322,16484,16482,3362,3360,16484,121298,3362,134420,
16484,121298,121460,16322,16484,17022594,17022432,16322,16484,16482,17022432,17022434,16484,16482,1420538,1420536,16484,1433658,3362,1420536,16484,3200,121460,134420,
16484,17022594,16320,17022434,16484,1433658,1420538,3360,16484,3200,17009474,17022434,16484,3200,1420538,1433498,16484,1433658,16320,1433498,16484,134580,16320,134420,
16484,134580,121460,3360,16484,17022594,17009474,3360,16484,121298,17127572,17022434,16484,121298,1420538,1551596,16484,1433658,17022432,18439610,16484,17140692,17022432,134420,
16484,1551756,121460,1420536,16484,17022594,18426650,1420536,16484,3200,1538636,1551596,16484,3200,17127572,17140532,16484,17140692,16320,17140532,16484,18439770,16320,18439610,
16484,18439770,18426650,3360,16484,1551756,1538636,3360,16484,17127410,3362,17140532,16484,1538474,1538636,16322,16484,18439770,18439608,16322,16484,16482,17140530,17140532,
16484,16482,1538636,1538634,16484,18439770,3362,18426648,16484,3200,18426650,18439610,16484,1551756,16320,1551596,16484,17140692,17127572,3360,16484,121298,18544748,18439610,
16484,121298,18426650,18557708,16484,1551756,17022432,18557708,16484,18557868,17022432,1551596,16484,18557868,17127572,1420536,16484,17140692,18544748,1420536,16484,3200,18544748,18557708,
16484,18557868,16320,18557708,16484,18557868,18544748,3360,16484,3200,3362,16322,18439772,18426488,18426650,18439610,16484,16482,16320,16322,1551758,1551756,1551594,1551596,
16484,16482,3362,3360,17140694,17140692,17127572,17127570,16484,121298,3362,134420,18439772,18544586,18426650,18557708,16484,121298,121460,16322,18439772,18544586,18544748,18439610,
16484,17022594,17022432,16322,1551758,18557868,18557706,1551596,16484,16482,17022432,17022434,1551758,1551756,18557706,18557708,16484,16482,1420538,1420536,17140694,17140692,18544748,18544746,
16484,1433658,3362,1420536,17140694,18557868,17127572,18544746,16484,3200,121460,134420,18439772,18426488,18544748,18557708,16484,17022594,16320,17022434,1551758,18557868,1551594,18557708,
16484,1433658,1420538,3360,17140694,18557868,18544748,17127570,16484,3200,3362,16322,1551758,1538474,1538636,1551596,16484,3200,3362,16322,17140694,17127410,17127572,17140532,
16484,16482,16320,16322,17140694,17140692,17140530,17140532,16484,16482,16320,16322,18439772,18439770,18439608,18439610,16484,16482,3362,3360,18439772,18439770,18426650,18426648,
16484,16482,3362,3360,1551758,1551756,1538636,1538634,16484,3200,121460,134420,1551758,1538474,1420538,1433498,16484,3200,121460,134420,17140694,17127410,17009474,17022434,
16484,134580,16320,134420,17140694,17022594,17140530,17022434,16484,1433658,16320,1433498,18439772,17022594,18439608,17022434,16484,1433658,1420538,3360,18439772,17022594,17009474,18426648,
16484,134580,121460,3360,1551758,1433658,1420538,1538634,16484,3200,17009474,17022434,1551758,1538474,18544748,18557708,16484,3200,1420538,1433498,17140694,17127410,18544748,18557708,
16484,1433658,16320,1433498,17140694,18557868,17140530,18557708,16484,134580,16320,134420,18439772,18557868,18439608,18557708,16484,134580,121460,3360,18439772,18557868,18544748,18426648,
16484,17022594,17009474,3360,1551758,18557868,18544748,1538634,16484,3200,17127572,17140532,1551758,1538474,18426650,18439610,16484,3200,1538636,1551596,17140694,17127410,18426650,18439610,
16484,1551756,16320,1551596,17140694,18439770,17140530,18439610,16484,1551756,16320,1551596,18439772,17140692,18439608,17140532,16484,1551756,1538636,3360,18439772,17140692,17127572,18426648,
16484,17140692,17127572,3360,1551758,18439770,18426650,1538634,16484,3200,3362,16322,1551758,1538474,1538636,1551596,17140694,17127410,17127572,17140532,18439772,18426488,18426650,18439610,
16484,16482,16320,16322,1551758,1551756,1551594,1551596,17140694,17140692,17140530,17140532,18439772,18439770,18439608,18439610,16484,16482,3362,3360,1551758,1551756,1538636,1538634,
17140694,17140692,17127572,17127570,18439772,18439770,18426650,18426648,1551758,1538474,9274055,9287015,16484,3200,10809329,10822289,18439772,18426488,26398265,26411225,17140694,17127410,27697343,27710303,
18439772,9287175,18439608,10822289,17140694,10822449,17140530,9287015,1551758,26411385,1551594,27710303,16484,27710463,16320,26411225,17140694,10822449,27697343,1538634,18439772,9287175,26398265,3360,
16484,27710463,10809329,18426648,1551758,26411385,9274055,17127570,16484,3200,3362,16322,18557870,18544586,18544748,18557708,16484,16482,16320,16322,18557870,18557868,18557706,18557708,
16484,16482,3362,3360,18557870,18557868,18544748,18544746,16484,3200,121460,134420,18557870,18544586,18426650,18439610,16484,17022594,16320,17022434,18557870,1551756,18557706,1551596,
16484,1433658,1420538,3360,18557870,17140692,17127572,18544746,16484,3200,17009474,17022434,18557870,18544586,1538636,1551596,16484,3200,1420538,1433498,18557870,18544586,17127572,17140532,
16484,1433658,16320,1433498,18557870,17140692,18557706,17140532,16484,134580,16320,134420,18557870,18439770,18557706,18439610,16484,134580,121460,3360,18557870,18439770,18426650,18544746,
16484,17022594,17009474,3360,18557870,1551756,1538636,18544746,16484,3198,3200,16482,16320,3362,3360,16322,16484,3200,16320,3360,18544584,18557868,18544748,18557708,
16484,3198,18426488,18439770,1551594,1538636,17127570,17140532,16484,3198,3200,16482,134418,121460,121458,134420,16484,3198,17009312,17022594,16320,3362,17009472,17022434,
16484,3198,1420376,1433658,1433496,1420538,3360,16322,16484,3200,16320,3360,18426486,18439770,18426650,18439610,16484,3198,18426488,18439770,1433496,1420538,17009472,17022434,
16484,3200,16320,3360,1538472,1551756,1538636,1551596,16484,3198,1420376,1433658,1551594,1538636,121458,134420,16484,3200,16320,3360,17127408,17140692,17127572,17140532,
16484,3198,17009312,17022594,134418,121460,17127570,17140532,16484,3198,17009312,17022594,17022432,17009474,3360,16322,16484,3198,1420376,1433658,16320,3362,1420536,1433498,
16484,3198,3200,16482,1433496,1420538,1420536,1433498,16484,3198,121298,134580,134418,121460,3360,16322,16484,3198,121298,134580,16320,3362,121458,134420,
16484,3198,3200,16482,17022432,17009474,17009472,17022434,16484,3198,17009312,17022594,1551594,1538636,18544746,18557708,16484,3198,1420376,1433658,18557706,18544748,17127570,17140532,
16484,3198,18544586,18557868,1433496,1420538,17127570,17140532,16484,3198,18426488,18439770,134418,121460,18544746,18557708,16484,3198,18426488,18439770,18557706,18544748,121458,134420,
16484,3198,18544586,18557868,1551594,1538636,17009472,17022434,16484,3198,17127410,17140692,16320,3362,17127570,17140532,16484,3198,1538474,1551756,1551594,1538636,3360,16322,
16484,3198,18426488,18439770,18439608,18426650,3360,16322,16484,3198,3200,16482,17140530,17127572,17127570,17140532,16484,3198,3200,16482,1551594,1538636,1538634,1551596,
16484,3198,18426488,18439770,16320,3362,18426648,18439610,16484,3198,17009312,17022594,17140530,17127572,121458,134420,16484,3198,1420376,1433658,134418,121460,1538634,1551596,
16484,3198,17009312,17022594,1433496,1420538,18426648,18439610,16484,3198,17127410,17140692,134418,121460,17009472,17022434,16484,3198,1538474,1551756,1433496,1420538,121458,134420,
16484,3198,1420376,1433658,18439608,18426650,17009472,17022434,16484,3198,3200,16482,18439608,18426650,18426648,18439610,16484,3198,1538474,1551756,16320,3362,1538634,1551596,
16484,3198,17127410,17140692,17140530,17127572,3360,16322,16484,3198,18426488,18439770,17140530,17127572,1538634,1551596,16484,3198,17127410,17140692,1551594,1538636,18426648,18439610,
16484,3198,1538474,1551756,18439608,18426650,17127570,17140532,16484,3198,121298,134580,1433496,1420538,1538634,1551596,16484,3198,121298,134580,17140530,17127572,17009472,17022434,
16484,3198,17127410,17140692,17022432,17009474,121458,134420,16484,3198,1420376,1433658,17022432,17009474,18426648,18439610,16484,3198,17009312,17022594,18439608,18426650,1420536,1433498,
16484,3198,1538474,1551756,134418,121460,1420536,1433498,16484,3198,3200,16482,18557706,18544748,18544746,18557708,16484,3198,18544586,18557868,16320,3362,18544746,18557708,
16484,3198,18544586,18557868,18557706,18544748,3360,16322,16484,3200,18439608,18426648,18426486,18439770,3362,16322,16484,3198,18426488,18439770,17022432,17009474,1420536,1433498,
16484,1538474,16320,1538634,1538472,16482,1538636,16322,16484,3198,121298,134580,1551594,1538636,1420536,1433498,16484,17127410,17140530,3360,17127408,16482,3362,17140532,
16484,3198,121298,134580,17022432,17009474,17127570,17140532,16484,3198,18544586,18557868,18439608,18426650,121458,134420,16484,3198,18544586,18557868,134418,121460,18426648,18439610,
16484,3198,17009312,17022594,18557706,18544748,1538634,1551596,16484,3198,1538474,1551756,18557706,18544748,17009472,17022434,16484,3198,17127410,17140692,1433496,1420538,18544746,18557708,
16484,3198,1420376,1433658,17140530,17127572,18544746,18557708,16484,3198,17127410,17140692,18439608,18426650,1538634,1551596,16484,3198,1538474,1551756,17140530,17127572,18426648,18439610,
16484,3198,17127410,17140692,18557706,18544748,1420536,1433498,16484,3198,1538474,1551756,17022432,17009474,18544746,18557708,16484,3198,121298,134580,18439608,18426650,18544746,18557708,
16484,3198,18544586,18557868,17140530,17127572,1420536,1433498,16484,3198,18544586,18557868,17022432,17009474,1538634,1551596,16484,3198,121298,134580,18557706,18544748,18426648,18439610,
16484,3198,121298,134580,16320,3362,121458,134420,18439772,18426486,18544586,18557868,18439608,18426650,18544746,18557708,16484,3198,121298,134580,134418,121460,3360,16322,
18439772,18426486,18544586,18557868,18557706,18544748,18426648,18439610,16484,3198,17009312,17022594,17022432,17009474,3360,16322,1551758,1538472,18544586,18557868,18557706,18544748,1538634,1551596,
16484,3198,3200,16482,17022432,17009474,17009472,17022434,1551758,1538472,1538474,1551756,18557706,18544748,18544746,18557708,16484,3198,3200,16482,1433496,1420538,1420536,1433498,
17140694,17127408,17127410,17140692,18557706,18544748,18544746,18557708,16484,3198,1420376,1433658,16320,3362,1420536,1433498,17140694,17127408,18544586,18557868,17140530,17127572,18544746,18557708,
16484,3198,1538474,1551756,16320,3362,1538634,1551596,18439772,18426486,17127410,17140692,18439608,18426650,17127570,17140532,16484,3198,1538474,1551756,1551594,1538636,3360,16322,
18439772,18426486,17127410,17140692,17140530,17127572,18426648,18439610,16484,3198,17127410,17140692,17140530,17127572,3360,16322,1551758,1538472,18426488,18439770,18439608,18426650,1538634,1551596,
16484,3198,3200,16482,17140530,17127572,17127570,17140532,1551758,1538472,1538474,1551756,18439608,18426650,18426648,18439610,16484,3198,3200,16482,1551594,1538636,1538634,1551596,
17140694,17127408,17127410,17140692,18439608,18426650,18426648,18439610,16484,3198,1538474,1551756,16320,3362,1538634,1551596,17140694,17127408,18426488,18439770,17140530,17127572,18426648,18439610,
16484,3198,3200,16482,16320,3362,3360,16322,18439772,18426486,18426488,18439770,18439608,18426650,18426648,18439610,16484,3198,3200,16482,16320,3362,3360,16322,
1551758,1538472,1538474,1551756,1551594,1538636,1538634,1551596,16484,3198,3200,16482,16320,3362,3360,16322,17140694,17127408,17127410,17140692,17140530,17127572,17127570,17140532,
16484,3198,3200,16482,134418,121460,121458,134420,18439772,18426486,18426488,18439770,18557706,18544748,18544746,18557708,16484,3198,17009312,17022594,16320,3362,17009472,17022434,
1551758,1538472,18544586,18557868,1551594,1538636,18544746,18557708,16484,3198,1420376,1433658,1433496,1420538,3360,16322,17140694,17127408,18544586,18557868,18557706,18544748,17127570,17140532,
16484,3198,1420376,1433658,16320,3362,1420536,1433498,18439772,18426486,17009312,17022594,18439608,18426650,17009472,17022434,16484,3198,1420376,1433658,1433496,1420538,3360,16322,
18439772,18426486,17009312,17022594,17022432,17009474,18426648,18439610,16484,3198,121298,134580,134418,121460,3360,16322,1551758,1538472,1420376,1433658,1433496,1420538,1538634,1551596,
16484,3198,3200,16482,134418,121460,121458,134420,1551758,1538472,1538474,1551756,1433496,1420538,1420536,1433498,16484,3198,3200,16482,134418,121460,121458,134420,
17140694,17127408,17127410,17140692,17022432,17009474,17009472,17022434,16484,3198,121298,134580,16320,3362,121458,134420,17140694,17127408,17009312,17022594,17140530,17127572,17009472,17022434,
16484,3200,16320,3360,1538472,1551756,1538636,1551596,18439772,18426488,18439608,18426648,17127408,17140692,17127572,17140532,16484,3198,1420376,1433658,1551594,1538636,121458,134420,
18439772,18426486,17009312,17022594,17140530,17127572,18544746,18557708,16484,3200,16320,3360,1538472,1551756,1538636,1551596,18439772,18426488,18439608,18426648,17127408,17140692,17127572,17140532,
16484,3198,1420376,1433658,134418,121460,1538634,1551596,18439772,18426486,17009312,17022594,18557706,18544748,17127570,17140532,16484,3200,16320,3360,17127408,17140692,17127572,17140532,
1551758,1538474,1551594,1538634,18426486,18439770,18426650,18439610,16484,3198,17009312,17022594,134418,121460,17127570,17140532,1551758,1538472,18544586,18557868,1433496,1420538,18426648,18439610,
16484,3200,16320,3360,17127408,17140692,17127572,17140532,1551758,1538474,1551594,1538634,18426486,18439770,18426650,18439610,16484,3198,17127410,17140692,134418,121460,17009472,17022434,
1551758,1538472,18426488,18439770,1433496,1420538,18544746,18557708,16484,3200,16320,3360,1538472,1551756,1538636,1551596,17140694,17127410,17140530,17127570,18426486,18439770,18426650,18439610,
16484,3198,1538474,1551756,1433496,1420538,121458,134420,17140694,17127408,18426488,18439770,18557706,18544748,17009472,17022434,16484,3200,16320,3360,1538472,1551756,1538636,1551596,
17140694,17127410,17140530,17127570,18426486,18439770,18426650,18439610,16484,3198,1420376,1433658,1551594,1538636,121458,134420,17140694,17127408,18544586,18557868,18439608,18426650,17009472,17022434,
16484,3198,3200,16482,16320,3362,3360,16322,1551758,1538472,1538474,1551756,1551594,1538636,1538634,1551596,17140694,17127408,17127410,17140692,17140530,17127572,17127570,17140532,
18439772,18426486,18426488,18439770,18439608,18426650,18426648,18439610,16484,3200,16320,3360,9273891,9287175,9274055,9287015,1551758,1538474,1551594,1538634,10809165,10822449,10809329,10822289,
17140694,17127410,17140530,17127570,26398101,26411385,26398265,26411225,18439772,18426488,18439608,18426648,27697179,27710463,27697343,27710303,16484,3198,9214844,9228126,783957,770999,8565465,8578427,
1551758,1538472,10750118,10763400,2319231,2306273,10100739,10113701,17140694,17127408,26339054,26352336,17908167,17895209,25689675,25702637,18439772,18426486,27638132,27651414,19207245,19194287,26988753,27001715,
16484,3198,3200,16482,16320,3362,3360,16322,18557870,18544584,18544586,18557868,18557706,18544748,18544746,18557708,16484,3198,3200,16482,134418,121460,121458,134420,
18557870,18544584,18544586,18557868,18439608,18426650,18426648,18439610,16484,3198,17009312,17022594,16320,3362,17009472,17022434,18557870,18544584,1538474,1551756,18557706,18544748,1538634,1551596,
16484,3198,1420376,1433658,1433496,1420538,3360,16322,18557870,18544584,17127410,17140692,17140530,17127572,18544746,18557708,16484,3198,1420376,1433658,134418,121460,1538634,1551596,
18557870,18544584,17127410,17140692,18439608,18426650,17009472,17022434,16484,3198,17009312,17022594,1433496,1420538,18426648,18439610,18557870,18544584,1538474,1551756,17140530,17127572,121458,134420,
16484,3198,1420376,1433658,16320,3362,1420536,1433498,18557870,18544584,17127410,17140692,18557706,18544748,17127570,17140532,16484,3198,17009312,17022594,17022432,17009474,3360,16322,
18557870,18544584,1538474,1551756,1551594,1538636,18544746,18557708,16484,3198,121298,134580,134418,121460,3360,16322,18557870,18544584,18426488,18439770,18439608,18426650,18544746,18557708,
16484,3198,3200,16482,1433496,1420538,1420536,1433498,18557870,18544584,18544586,18557868,17140530,17127572,17127570,17140532,16484,3198,3200,16482,17022432,17009474,17009472,17022434,
18557870,18544584,18544586,18557868,1551594,1538636,1538634,1551596,16484,3198,121298,134580,16320,3362,121458,134420,18557870,18544584,18426488,18439770,18557706,18544748,18426648,18439610,
16484,7898,3200,11786,16484,66947,121298,188933,16484,125996,3200,129884,16484,185045,121298,70835,16484,7898,3200,11786,18557870,18549284,18544586,18553172,
16484,1484123,18544586,17195045,18557870,17191157,3200,1488011,16484,11784,3200,7896,16484,11784,3200,7896,18557870,18553170,18544586,18549282,16484,3198,7898,11784,
3200,16482,11786,7896,16484,3198,125996,129882,3200,16482,129884,125994,16484,18431186,3200,18435074,18426486,11784,18439770,7896,16484,3198,17014010,17017896,
18426488,18439770,1428962,1425072,16484,18549284,3200,18553172,18544584,11784,18557868,7896,16484,3198,1543172,1547058,18426488,18439770,17135996,17132106,16484,3198,7898,11784,
3200,16482,11786,7896,18557870,18544584,18549284,18553170,18544586,18557868,18553172,18549282,16484,1484123,18544586,17195045,1479423,11784,17199741,18549282,18557870,17191157,3200,1488011,
17186457,18553170,1492707,7896,16484,3198,26284703,26288589,17127410,17140692,27823865,27819975,18557870,18544584,10813865,10817751,1420376,1433658,9282479,9278589,16484,7898,3200,11786,
16320,7410,3360,12270,16484,18431186,3200,18435074,18439608,7410,18426648,12270,16484,66947,121298,188933,134418,66459,3360,189417,16484,18490235,121298,18612221,
18616755,125508,18485697,12270,16484,125996,3200,129884,16320,125508,3360,130368,16484,18549284,3200,18553172,18557706,7410,18544746,12270,16484,185045,121298,70835,
134418,184557,3360,71319,16484,18608333,121298,18494123,18498657,125508,18603795,12270,16484,7898,3200,11786,16320,7410,3360,12270,18557870,18549284,18544586,18553172,
18557706,18548796,18544746,18553656,16484,1484123,18544586,17195045,1492545,7410,17186619,18553656,18557870,17191157,3200,1488011,17199579,18548796,1479585,12270,16484,7898,3200,11786,
3362,12272,16322,7412,16484,7898,3200,11786,18426650,18435560,18439610,18430700,16484,125996,3200,129884,121460,12272,134420,7412,16484,18549284,3200,18553172,
18544748,12272,18557708,7412,16484,7898,3200,11786,121460,130370,134420,125510,16484,7898,3200,11786,18544748,18553658,18557708,18548798,16484,125996,3200,129884,
3362,130370,16322,125510,16484,125996,3200,129884,18426650,18553658,18439610,18548798,16484,7898,3200,11786,3362,12272,16322,7412,18557870,18549284,18544586,18553172,
18544748,18553658,18557708,18548798,16484,7898,3200,11786,121460,130370,134420,125510,18557870,18549284,18544586,18553172,18426650,18435560,18439610,18430700,16484,1484123,18544586,17195045,
3362,1488497,18557708,17190671,18557870,17191157,3200,1488011,18544748,17195531,16322,1483637,16484,1484123,18544586,17195045,121460,1606595,18439610,17072573,18557870,17191157,3200,1488011,
18426650,17077433,134420,1601735,16484,11784,3200,7896,16320,12272,3360,7412,16484,11784,3200,7896,134418,130370,121458,125510,16484,11784,3200,7896,
18439608,18435560,18426648,18430700,16484,11784,3200,7896,18557706,18553658,18544746,18548798,16484,11784,3200,7896,3362,7410,16322,12270,16484,11784,3200,7896,
121460,125508,134420,130368,16484,11784,3200,7896,18426650,18430698,18439610,18435558,16484,11784,3200,7896,18544748,18548796,18557708,18553656,16484,11784,3200,7896,
3362,7410,16322,12270,18557870,18553170,18544586,18549282,18544748,18548796,18557708,18553656,16484,11784,3200,7896,121460,125508,134420,130368,18557870,18553170,18544586,18549282,
18426650,18430698,18439610,18435558,16484,11784,3200,7896,16320,12272,3360,7412,18557870,18553170,18544586,18549282,18557706,18553658,18544746,18548798,16484,11784,3200,7896,
1492545,1488497,1479585,1483637,18557870,18553170,18544586,18549282,17199579,17195531,17186619,17190671,16484,3198,7898,11784,3200,16482,11786,7896,16320,3362,7410,12272,
3360,16322,12270,7412,16484,3198,7898,11784,3200,16482,11786,7896,134418,121460,125508,130370,121458,134420,130368,125510,16484,7898,3200,11786,
16320,7410,3360,12270,18426486,18435072,18439770,18431184,18426650,18435560,18439610,18430700,16484,3198,17014010,17017896,18426488,18439770,1428962,1425072,1433496,1420538,18430698,18435560,
17009472,17022434,12270,7412,16484,7898,3200,11786,16320,7410,3360,12270,18544584,18553170,18557868,18549282,18544748,18553658,18557708,18548798,16484,3198,17014010,17017896,
18426488,18439770,1428962,1425072,1551594,1538636,18548796,18553658,17127570,17140532,130368,125510,16484,3198,7898,11784,3200,16482,11786,7896,18439608,18426650,18430698,18435560,
18426648,18439610,18435558,18430700,16484,3198,7898,11784,3200,16482,11786,7896,18557706,18544748,18548796,18553658,18544746,18557708,18553656,18548798,16484,18431186,3200,18435074,
18439608,7410,18426648,12270,18426486,11784,18439770,7896,3362,18435560,16322,18430700,16484,3198,17014010,17017896,18426488,18439770,1428962,1425072,17022432,17009474,7410,12272,
1420536,1433498,18435558,18430700,16484,18431186,3200,18435074,18557706,125508,18544746,130368,18426486,11784,18439770,7896,121460,18553658,134420,18548798,16484,3198,17014010,17017896,
18426488,18439770,1428962,1425072,17140530,17127572,125508,130370,1538634,1551596,18553656,18548798,16484,3198,125996,129882,3200,16482,129884,125994,16320,3362,125508,130370,
3360,16322,130368,125510,16484,3198,125996,129882,3200,16482,129884,125994,134418,121460,7410,12272,121458,134420,12270,7412,16484,18549284,3200,18553172,
134418,18430698,121458,18435558,18544584,11784,18557868,7896,18426650,130370,18439610,125510,16484,3198,17132108,17135994,18426488,18439770,1547060,1543170,1433496,1420538,18548796,18553658,
17009472,17022434,130368,125510,16484,18549284,3200,18553172,16320,18548796,3360,18553656,18544584,11784,18557868,7896,18544748,12272,18557708,7412,16484,3198,17132108,17135994,
18426488,18439770,1547060,1543170,1551594,1538636,18430698,18435560,17127570,17140532,12270,7412,16484,3198,125996,129882,3200,16482,129884,125994,18439608,18426650,18548796,18553658,
18426648,18439610,18553656,18548798,16484,3198,18549284,18553170,3200,16482,18553172,18549282,18557706,18544748,7410,12272,18544746,18557708,12270,7412,16484,18549284,3200,18553172,
18557706,7410,18544746,12270,18544584,11784,18557868,7896,3362,18553658,16322,18548798,16484,3198,17132108,17135994,18426488,18439770,1547060,1543170,17022432,17009474,125508,130370,
1420536,1433498,18553656,18548798,16484,18549284,3200,18553172,18439608,125508,18426648,130368,18544584,11784,18557868,7896,121460,18435560,134420,18430700,16484,3198,17132108,17135994,
18426488,18439770,1547060,1543170,17140530,17127572,7410,12272,1538634,1551596,18435558,18430700,16484,3198,7898,11784,3200,16482,11786,7896,16320,3362,7410,12272,
3360,16322,12270,7412,18557870,18544584,18549284,18553170,18544586,18557868,18553172,18549282,18557706,18544748,18548796,18553658,18544746,18557708,18553656,18548798,16484,3198,7898,11784,
3200,16482,11786,7896,134418,121460,125508,130370,121458,134420,130368,125510,18557870,18544584,18549284,18553170,18544586,18557868,18553172,18549282,18439608,18426650,18430698,18435560,
18426648,18439610,18435558,18430700,16484,1484123,18544586,17195045,1492545,7410,17186619,18553656,1479423,11784,17199741,18549282,3362,1488497,18557708,17190671,18557870,17191157,3200,1488011,
17199579,18548796,1479585,12270,17186457,18553170,1492707,7896,18544748,17195531,16322,1483637,16484,3198,10695767,10699653,17127410,17140692,9400577,9396687,16320,3362,9396201,9401063,
17127570,17140532,10700139,10695281,18557870,18544584,26402801,26406687,1420376,1433658,27705767,27701877,18557706,18544748,27701391,27706253,1420536,1433498,26407173,26402315,16484,1484123,18544586,17195045,
17081481,18430698,1597683,130368,1479423,11784,17199741,18549282,18426650,17077433,134420,1601735,18557870,17191157,3200,1488011,1610643,125508,17068521,18435558,17186457,18553170,1492707,7896,
121460,1606595,18439610,17072573,16484,3198,10695767,10699653,17127410,17140692,9400577,9396687,134418,121460,9278103,9282965,17009472,17022434,10818237,10813379,18557870,18544584,26402801,26406687,
1420376,1433658,27705767,27701877,18439608,18426650,27819489,27824351,1538634,1551596,26289075,26284217,16484,7817,5225,16484,86549,162689,16484,165281,83957,16484,7817,5225,
23714816,23706149,23703557,13400924,13392257,13389665,16484,10816,12064,16484,3198,7817,11865,5225,14457,16484,3198,7817,11865,5225,14457,23714816,23701530,23706149,
23710197,23703557,23712789,13400924,13387638,13392257,13396305,13389665,13398897,16484,3198,10816,8866,12064,7618,16484,7817,5225,7410,5547,16563,16484,7817,5225,
12270,14133,3117,16484,86549,162689,164874,84279,16563,16484,86549,162689,12270,171597,81849,16484,165281,83957,86142,163011,16563,16484,165281,83957,
12270,92865,160581,16484,7817,5225,12270,14133,3117,23714816,23706149,23703557,23710602,23712465,23701449,13400924,13392257,13389665,13396710,13398573,13387557,16484,10816,12064,
7410,3250,9022,16484,7817,5225,7412,5549,16565,16484,7817,5225,12272,14135,3119,16484,7817,5225,125510,123647,134663,16484,7817,5225,
130370,132233,121217,16484,7817,5225,7412,5549,16565,23714816,23706149,23703557,23705744,23703881,23714897,13400924,13392257,13389665,13391852,13389989,13401005,16484,10816,12064,
12272,16432,10660,16484,7817,5225,125510,123647,134663,23714816,23706149,23703557,23823842,23821979,23832995,13400924,13392257,13389665,13273754,13271891,13282907,16484,10816,12064,
18553658,18557818,18552046,16484,3198,7817,11865,5225,14457,7410,12272,5547,14135,16563,3119,16484,3198,7817,11865,5225,14457,125508,130370,123645,
132233,134661,121217,16484,3198,7817,11865,5225,14457,12270,7412,14133,5549,3117,16565,16484,3198,7817,11865,5225,14457,130368,125510,132231,
123647,121215,134663,16484,3198,7817,11865,5225,14457,12270,7412,14133,5549,3117,16565,23714816,23701530,23706149,23710197,23703557,23712789,23710602,23705744,23712465,
23703881,23701449,23714897,13400924,13387638,13392257,13396305,13389665,13398897,13396710,13391852,13398573,13389989,13387557,13401005,16484,3198,10816,8866,12064,7618,7410,12272,3250,
16432,9022,10660,16484,3198,7817,11865,5225,14457,130368,125510,132231,123647,121215,134663,23714816,23701530,23706149,23710197,23703557,23712789,23828700,23823842,23830563,
23821979,23819547,23832995,13400924,13387638,13392257,13396305,13389665,13398897,13278612,13273754,13280475,13271891,13269459,13282907,16484,3198,10816,8866,12064,7618,18548796,18553658,18544636,
18557818,18550408,18552046,16484,14459,7817,3200,5225,11867,16484,53825,86549,121298,162689,208697,16484,211289,165281,121298,83957,51233,16484,93191,165281,
3200,83957,169331,16484,171923,86549,3200,162689,90599,16484,132557,7817,121298,5225,129965,16484,5223,7817,16482,5225,7815,16484,3198,14459,
5223,7817,11865,3200,16482,5225,14457,11867,7815,16484,3198,132557,123321,7817,11865,121298,134580,5225,14457,129965,125913,16484,14459,7817,
3200,5225,11867,7410,3117,5547,12270,16563,14133,16484,53825,86549,121298,162689,208697,204240,160581,123645,91002,55929,14133,16484,211289,165281,
121298,83957,51233,46776,81849,123645,169734,213393,14133,16484,93191,165281,3200,83957,169331,164874,81849,5547,169734,95295,14133,16484,171923,86549,
3200,162689,90599,86142,160581,5547,91002,174027,14133,16484,132557,7817,121298,5225,129965,125508,3117,123645,12270,134661,14133,16484,14459,7817,
3200,5225,11867,12272,16565,14135,7412,3119,5549,16484,14459,7817,3200,5225,11867,130370,134663,132233,125510,121217,123647,16484,132557,7817,
121298,5225,129965,12272,134663,14135,125510,3119,123647,16484,132557,7817,121298,5225,129965,130370,16565,132233,7412,121217,5549,16484,5223,7817,
16482,5225,7815,7410,16565,5547,7412,16563,5549,16484,123321,7817,134580,5225,125913,7410,134663,5547,125510,16563,123647,16484,5223,7817,
16482,5225,7815,12272,3117,14135,12270,3119,14133,16484,123321,7817,134580,5225,125913,130370,3117,132233,12270,121217,14133,16484,3198,14459,
5223,7817,11865,3200,16482,5225,14457,11867,7815,7410,12272,3117,16565,5547,14135,12270,7412,16563,3119,14133,5549,16484,3198,14459,
5223,7817,11865,3200,16482,5225,14457,11867,7815,125508,130370,121215,134663,123645,132233,130368,125510,134661,121217,132231,123647,16484,3198,132557,
123321,7817,11865,121298,134580,5225,14457,129965,125913,7410,12272,121215,134663,5547,14135,130368,125510,16563,3119,132231,123647,16484,3198,132557,
123321,7817,11865,121298,134580,5225,14457,129965,125913,125508,130370,3117,16565,123645,132233,12270,7412,134661,121217,14133,5549,16484,3200,16320,
3360,10816,10324,9352,8872,12064,7672,7636,11992,16484,3200,16320,3360,10816,10324,9352,8872,12064,7672,7636,11992,1551758,1538474,1551594,
1538634,1546090,1545598,1544626,1544146,1547338,1542946,1542910,1547266,17140694,17127410,17140530,17127570,17135026,17134534,17133562,17133082,17136274,17131882,17131846,17136202,18439772,18426488,18439608,
18426648,18434104,18433612,18432640,18432160,18435352,18430960,18430924,18435280,16484,3200,16320,3360,10816,10324,9352,8872,12064,7672,7636,11992,18557870,18544586,18557706,
18544746,18552202,18551710,18550738,18550258,18553450,18549058,18549022,18553378,16484,17127410,18439608,1538634,10816,18433612,1544626,17133082,12064,1542946,17131846,18435280,16484,1420376,134418,
1538634,10816,128422,17015464,17133082,12064,17013784,1424812,18435280,18557870,17127410,18439608,17009472,18552202,18433612,1544626,1426048,18553450,1542946,17131846,130090,16484,3198,3200,
16482,16320,3362,3360,16322,10816,8866,10324,9358,9352,10330,8872,10810,12064,7618,7672,12010,7636,12046,11992,7690,16484,3200,16320,
3360,10816,10324,9352,8872,12064,7672,7636,11992,18544584,18557868,18544748,18557708,18550252,18550744,18551716,18552196,18549004,18553396,18553432,18549076,16484,3198,18426488,
18439770,1551594,1538636,17127570,17140532,10816,8866,1545598,1544632,17133562,17134540,18432160,18434098,12064,7618,17131882,17136220,18430924,18435334,1547266,1542964,16484,3198,3200,
16482,16320,3362,3360,16322,10816,8866,10324,9358,9352,10330,8872,10810,12064,7618,7672,12010,7636,12046,11992,7690,1551758,1538472,1538474,
1551756,1551594,1538636,1538634,1551596,1546090,1544140,1545598,1544632,1544626,1545604,1544146,1546084,1547338,1542892,1542946,1547284,1542910,1547320,1547266,1542964,17140694,17127408,17127410,
17140692,17140530,17127572,17127570,17140532,17135026,17133076,17134534,17133568,17133562,17134540,17133082,17135020,17136274,17131828,17131882,17136220,17131846,17136256,17136202,17131900,18439772,18426486,18426488,
18439770,18439608,18426650,18426648,18439610,18434104,18432154,18433612,18432646,18432640,18433618,18432160,18434098,18435352,18430906,18430960,18435298,18430924,18435334,18435280,18430978,16484,3200,16320,
3360,10816,10324,9352,8872,12064,7672,7636,11992,9273891,9287175,9274055,9287015,9279559,9280051,9281023,9281503,9278311,9282703,9282739,9278383,1551758,1538474,1551594,
1538634,1546090,1545598,1544626,1544146,1547338,1542946,1542910,1547266,10809165,10822449,10809329,10822289,10814833,10815325,10816297,10816777,10813585,10817977,10818013,10813657,17140694,17127410,17140530,
17127570,17135026,17134534,17133562,17133082,17136274,17131882,17131846,17136202,26398101,26411385,26398265,26411225,26403769,26404261,26405233,26405713,26402521,26406913,26406949,26402593,18439772,18426488,18439608,
18426648,18434104,18433612,18432640,18432160,18435352,18430960,18430924,18435280,27697179,27710463,27697343,27710303,27702847,27703339,27704311,27704791,27701599,27705991,27706027,27701671,16484,3198,9214844,
9228126,783957,770999,8565465,8578427,10816,8866,777961,776995,8571457,8572435,9220516,9222454,12064,7618,8569777,8574115,9219280,9223690,779629,775327,1551758,1538472,10750118,
10763400,2319231,2306273,10100739,10113701,1546090,1544140,2313235,2312269,10106731,10107709,10755790,10757728,1547338,1542892,10105051,10109389,10754554,10758964,2314903,2310601,17140694,17127408,26339054,
26352336,17908167,17895209,25689675,25702637,17135026,17133076,17902171,17901205,25695667,25696645,26344726,26346664,17136274,17131828,25693987,25698325,26343490,26347900,17903839,17899537,18439772,18426486,27638132,
27651414,19207245,19194287,26988753,27001715,18434104,18432154,19201249,19200283,26994745,26995723,27643804,27645742,18435352,18430906,26993065,26997403,27642568,27646978,19202917,19198615,16484,3198,3200,
16482,16320,3362,3360,16322,10816,8866,10324,9358,9352,10330,8872,10810,12064,7618,7672,12010,7636,12046,11992,7690,18557870,18544584,18544586,
18557868,18557706,18544748,18544746,18557708,18552202,18550252,18551710,18550744,18550738,18551716,18550258,18552196,18553450,18549004,18549058,18553396,18549022,18553432,18553378,18549076,16484,3198,17127410,
17140692,18439608,18426650,1538634,1551596,10816,8866,18433612,18432646,1544626,1545604,17133082,17135020,12064,7618,1542946,1547284,17131846,17136256,18435280,18430978,16484,3198,1420376,
1433658,134418,121460,1538634,1551596,10816,8866,128422,127456,17015464,17016442,17133082,17135020,12064,7618,17013784,17018122,1424812,1429222,18435280,18430978,18557870,18544584,17127410,
17140692,18439608,18426650,17009472,17022434,18552202,18550252,18433612,18432646,1544626,1545604,1426048,1427986,18553450,18549004,1542946,1547284,17131846,17136256,130090,125788,16484,7898,3200,
11786,16320,7410,3360,12270,10816,10498,10324,10642,9352,9022,8872,9202,12064,16426,7672,3310,7636,3250,11992,16378,16484,18549284,3200,
18553172,16320,18548796,3360,18553656,10816,18551884,10324,18552028,9352,18550408,8872,18550588,12064,18557812,7672,18544696,7636,18544636,11992,18557764,16484,7898,3200,
11786,16320,7410,3360,12270,10816,10498,10324,10642,9352,9022,8872,9202,12064,16426,7672,3310,7636,3250,11992,16378,1551758,1543172,1538474,
1547060,1551594,1542684,1538634,1547544,1546090,1545772,1545598,1545916,1544626,1544296,1544146,1544476,1547338,1551700,1542946,1538584,1542910,1538524,1547266,1551652,17140694,17132108,17127410,
17135996,17140530,17131620,17127570,17136480,17135026,17134708,17134534,17134852,17133562,17133232,17133082,17133412,17136274,17140636,17131882,17127520,17131846,17127460,17136202,17140588,18439772,18431186,18426488,
18435074,18439608,18430698,18426648,18435558,18434104,18433786,18433612,18433930,18432640,18432310,18432160,18432490,18435352,18439714,18430960,18426598,18430924,18426538,18435280,18439666,16484,9278591,1538474,
26406689,16320,10813377,1538634,27706251,10816,9281191,17134534,27704623,9352,26403925,17133082,10815169,12064,9287119,18430960,10809277,7636,27697231,18435280,26411281,1551758,10813865,3200,
27705767,1551594,9278103,3360,26407173,1546090,10816465,18433612,26405545,1544626,27703003,18432160,9279895,1547338,10822393,17131882,9274003,1542910,26398153,17136202,27710359,17140694,26402801,18426488,
9282479,17140530,27701391,18426648,10818237,17135026,26405401,10324,10816609,17133562,9279715,8872,27703183,17136274,26411329,1542946,27697291,17131846,10809217,1547266,9287071,18439772,27701879,17127410,
10817753,18439608,26402313,17127570,9282963,18434104,27704479,1545598,9281335,18432640,10814989,1544146,26404105,18435352,27710407,7672,26398213,18430924,9273943,11992,10822345,16484,7898,3200,
11786,16320,7410,3360,12270,10816,10498,10324,10642,9352,9022,8872,9202,12064,16426,7672,3310,7636,3250,11992,16378,18557870,18549284,18544586,
18553172,18557706,18548796,18544746,18553656,18552202,18551884,18551710,18552028,18550738,18550408,18550258,18550588,18553450,18557812,18549058,18544696,18549022,18544636,18553378,18557764,16484,26402801,17127410,
27705767,18439608,9278103,1538634,10818237,10816,27704479,18433612,10816609,1544626,9279715,17133082,26404105,12064,10822393,1542946,26398213,17131846,9273943,18435280,27710359,16484,10695767,17127410,
9400577,18439608,27819489,1538634,26289075,10816,9399289,18433612,26287447,1544626,27821101,17133082,10697071,12064,26293231,1542946,10691179,17131846,27815329,18435280,9405169,16484,10695767,17127410,
9400577,134418,9278103,17009472,10818237,10816,9399289,18433612,26287447,17015464,9279715,1426048,26404105,12064,26293231,1542946,10691179,1424812,9273943,130090,27710359,18557870,26402801,1420376,
27705767,18439608,27819489,1538634,26289075,18552202,27704479,128422,10816609,1544626,27821101,17133082,10697071,18553450,10822393,17013784,26398213,17131846,27815329,18435280,9405169,16484,11784,3200,
7896,16320,12272,3360,7412,10816,9184,10324,9040,9352,10660,8872,10480,12064,3256,7672,16372,7636,16432,11992,3304,16484,11784,3200,
7896,16320,12272,3360,7412,10816,9184,10324,9040,9352,10660,8872,10480,12064,3256,7672,16372,7636,16432,11992,3304,1551758,1547058,1538474,
1543170,1551594,1547546,1538634,1542686,1546090,1544458,1545598,1544314,1544626,1545934,1544146,1545754,1547338,1538530,1542946,1551646,1542910,1551706,1547266,1538578,17140694,17135994,17127410,
17132106,17140530,17136482,17127570,17131622,17135026,17133394,17134534,17133250,17133562,17134870,17133082,17134690,17136274,17127466,17131882,17140582,17131846,17140642,17136202,17127514,18439772,18435072,18426488,
18431184,18439608,18435560,18426648,18430700,18434104,18432472,18433612,18432328,18432640,18433948,18432160,18433768,18435352,18426544,18430960,18439660,18430924,18439720,18435280,18426592,16484,11784,3200,
7896,16320,12272,3360,7412,10816,9184,10324,9040,9352,10660,8872,10480,12064,3256,7672,16372,7636,16432,11992,3304,18557870,18553170,18544586,
18549282,18557706,18553658,18544746,18548798,18552202,18550570,18551710,18550426,18550738,18552046,18550258,18551866,18553450,18544642,18549058,18557758,18549022,18557818,18553378,18544690,16484,18553170,3200,
18549282,16320,18553658,3360,18548798,10816,18550570,10324,18550426,9352,18552046,8872,18551866,12064,18544642,7672,18557758,7636,18557818,11992,18544690,16484,129882,3200,
125994,16320,130370,3360,125510,10816,17015296,10324,17015152,9352,17016772,8872,17016592,12064,1420432,7672,1433548,7636,1433608,11992,1420480,1551758,1428960,1538474,
1425072,1551594,1429448,1538634,1424588,1546090,18550570,1545598,18550426,1544626,18552046,1544146,18551866,1547338,121354,1542946,134470,1542910,134530,1547266,121402,17140694,17017896,17127410,
17014008,17140530,17018384,17127570,17013524,17135026,127282,17134534,127138,17133562,128758,17133082,128578,17136274,18544642,17131882,18557758,17131846,18557818,17136202,18544690,18439772,18553170,18426488,
18549282,18439608,18553658,18426648,18548798,18434104,1426360,18433612,1426216,18432640,1427836,18432160,1427656,18435352,17009368,18430960,17022484,18430924,17022544,18435280,17009416,16484,10699653,1420376,
27701877,134418,9282965,1538634,26284217,10816,9397975,128422,10815007,17015464,9281353,17133082,10698349,12064,26280061,17013784,26411275,1424812,9287125,18435280,9392095,18557870,26406687,17127410,
9396687,18439608,27824351,17009472,10813379,18552202,27703165,18433612,26285845,1544626,27822739,1426048,26405383,18553450,10809223,1542946,10704241,17131846,27828511,130090,27697285,16484,3198,7898,
11784,3200,16482,11786,7896,16320,3362,7410,12272,3360,16322,12270,7412,10816,8866,10498,9184,10324,9358,10642,9040,9352,10330,9022,
10660,8872,10810,9202,10480,12064,7618,16426,3256,7672,12010,3310,16372,7636,12046,3250,16432,11992,7690,16378,3304,16484,7898,3200,
11786,16320,7410,3360,12270,10816,10498,10324,10642,9352,9022,8872,9202,12064,16426,7672,3310,7636,3250,11992,16378,18544584,18553170,18557868,
18549282,18544748,18553658,18557708,18548798,18550252,18550570,18550744,18550426,18551716,18552046,18552196,18551866,18549004,18544642,18553396,18557758,18553432,18557818,18549076,18544690,16484,3198,17014010,
17017896,18426488,18439770,1428962,1425072,1551594,1538636,18548796,18553658,17127570,17140532,130368,125510,10816,8866,1427674,1426360,1545598,1544632,128740,127138,17133562,17134540,18550408,
18552046,18432160,18434098,17015314,17016592,12064,7618,134524,121354,17131882,17136220,17009422,17022484,18430924,18435334,18544636,18557818,1547266,1542964,1433554,1420480,16484,3198,18549284,
18553170,3200,16482,18553172,18549282,16320,3362,18548796,18553658,3360,16322,18553656,18548798,10816,8866,18551884,18550570,10324,9358,18552028,18550426,9352,10330,18550408,
18552046,8872,10810,18550588,18551866,12064,7618,18557812,18544642,7672,12010,18544696,18557758,7636,12046,18544636,18557818,11992,7690,18557764,18544690,16484,18549284,3200,
18553172,16320,18548796,3360,18553656,10816,18551884,10324,18552028,9352,18550408,8872,18550588,12064,18557812,7672,18544696,7636,18544636,11992,18557764,18544584,11784,18557868,
7896,18544748,12272,18557708,7412,18550252,9184,18550744,9040,18551716,10660,18552196,10480,18549004,3256,18553396,16372,18553432,16432,18549076,3304,16484,3198,1543172,
1547058,18426488,18439770,17135996,17132106,1551594,1538636,7410,12272,17127570,17140532,18435558,18430700,10816,8866,17134708,17133394,1545598,1544632,18433930,18432328,17133562,17134540,9022,
10660,18432160,18434098,1544476,1545754,12064,7618,18439714,18426544,17131882,17136220,1538584,1551646,18430924,18435334,3250,16432,1547266,1542964,17140588,17127514,16484,3198,7898,
11784,3200,16482,11786,7896,16320,3362,7410,12272,3360,16322,12270,7412,10816,8866,10498,9184,10324,9358,10642,9040,9352,10330,9022,
10660,8872,10810,9202,10480,12064,7618,16426,3256,7672,12010,3310,16372,7636,12046,3250,16432,11992,7690,16378,3304,1551758,1538472,1543172,
1547058,1538474,1551756,1547060,1543170,1551594,1538636,1542684,1547546,1538634,1551596,1547544,1542686,1546090,1544140,1545772,1544458,1545598,1544632,1545916,1544314,1544626,1545604,1544296,
1545934,1544146,1546084,1544476,1545754,1547338,1542892,1551700,1538530,1542946,1547284,1538584,1551646,1542910,1547320,1538524,1551706,1547266,1542964,1551652,1538578,17140694,17127408,17132108,
17135994,17127410,17140692,17135996,17132106,17140530,17127572,17131620,17136482,17127570,17140532,17136480,17131622,17135026,17133076,17134708,17133394,17134534,17133568,17134852,17133250,17133562,17134540,17133232,
17134870,17133082,17135020,17133412,17134690,17136274,17131828,17140636,17127466,17131882,17136220,17127520,17140582,17131846,17136256,17127460,17140642,17136202,17131900,17140588,17127514,18439772,18426486,18431186,
18435072,18426488,18439770,18435074,18431184,18439608,18426650,18430698,18435560,18426648,18439610,18435558,18430700,18434104,18432154,18433786,18432472,18433612,18432646,18433930,18432328,18432640,18433618,18432310,
18433948,18432160,18434098,18432490,18433768,18435352,18430906,18439714,18426544,18430960,18435298,18426598,18439660,18430924,18435334,18426538,18439720,18435280,18430978,18439666,18426592,16484,3198,125996,
129882,3200,16482,129884,125994,16320,3362,125508,130370,3360,16322,130368,125510,10816,8866,17016610,17015296,10324,9358,17016754,17015152,9352,10330,17015134,
17016772,8872,10810,17015314,17016592,12064,7618,1433602,1420432,7672,12010,1420486,1433548,7636,12046,1420426,1433608,11992,7690,1433554,1420480,1551758,1538472,1425074,
1428960,1538474,1551756,1428962,1425072,1551594,1538636,1424586,1429448,1538634,1551596,1429446,1424588,1546090,1544140,18551884,18550570,1545598,1544632,18552028,18550426,1544626,1545604,18550408,
18552046,1544146,1546084,18550588,18551866,1547338,1542892,134524,121354,1542946,1547284,121408,134470,1542910,1547320,121348,134530,1547266,1542964,134476,121402,17140694,17127408,17014010,
17017896,17127410,17140692,17017898,17014008,17140530,17127572,17013522,17018384,17127570,17140532,17018382,17013524,17135026,17133076,128596,127282,17134534,17133568,128740,127138,17133562,17134540,127120,
128758,17133082,17135020,127300,128578,17136274,17131828,18557812,18544642,17131882,17136220,18544696,18557758,17131846,17136256,18544636,18557818,17136202,17131900,18557764,18544690,18439772,18426486,18549284,
18553170,18426488,18439770,18553172,18549282,18439608,18426650,18548796,18553658,18426648,18439610,18553656,18548798,18434104,18432154,1427674,1426360,18433612,18432646,1427818,1426216,18432640,18433618,1426198,
1427836,18432160,18434098,1426378,1427656,18435352,18430906,17022538,17009368,18430960,18435298,17009422,17022484,18430924,18435334,17009362,17022544,18435280,18430978,17022490,17009416,16484,9278591,1538474,
26406689,16320,10813377,1538634,27706251,10816,9281191,17134534,27704623,9352,26403925,17133082,10815169,12064,9287119,18430960,10809277,7636,27697231,18435280,26411281,9273891,11784,10822449,
17132106,9274055,1547546,10822289,18430700,9279559,9184,26404261,18432328,9281023,17134870,26405713,1545754,9278311,3256,27705991,1551646,9282739,18439720,27701671,17127514,1551758,10813865,3200,
27705767,1551594,9278103,3360,26407173,1546090,10816465,18433612,26405545,1544626,27703003,18432160,9279895,1547338,10822393,17131882,9274003,1542910,26398153,17136202,27710359,10809165,1547058,9287175,
18431184,10809329,12272,9287015,17131622,10814833,1544458,27703339,17133250,10816297,18433948,27704791,10480,10813585,1538530,26406913,16372,10818013,17140642,26402593,18426592,17140694,26402801,18426488,
9282479,17140530,27701391,18426648,10818237,17135026,26405401,10324,10816609,17133562,9279715,8872,27703183,17136274,26411329,1542946,27697291,17131846,10809217,1547266,9287071,26398101,17135994,27710463,
7896,26398265,18435560,27710303,1542686,26403769,17133394,9280051,1544314,26405233,10660,9281503,18433768,26402521,17127466,10817977,18439660,26406949,1551706,10813657,3304,18439772,27701879,17127410,
10817753,18439608,26402313,17127570,9282963,18434104,27704479,1545598,9281335,18432640,10814989,1544146,26404105,18435352,27710407,7672,26398213,18430924,9273943,11992,10822345,27697179,18435072,26411385,
1543170,27697343,17136482,26411225,7412,27702847,18432472,10815325,9040,27704311,1545934,10816777,17134690,27701599,18426544,9282703,17140582,27706027,16432,9278383,1538578,16484,3198,775535,
779421,26339054,26352336,25698101,25694211,783957,770999,7410,12272,25689675,25702637,26348124,26343266,10816,8866,8572603,8571289,19201249,19200283,27645574,27643972,8571457,8572435,9022,
10660,27643804,27645742,19200127,19201405,12064,7618,9228070,9214900,10105051,10109389,2306221,2319283,9219280,9223690,3250,16432,2314903,2310601,10113757,10100683,1551758,1538472,2310809,
2314695,27638132,27651414,26997179,26993289,2319231,2306273,1542684,1547546,26988753,27001715,27647202,27642344,1546090,1544140,10107877,10106563,17902171,17901205,26346496,26344894,10106731,10107709,1544296,
1545934,26344726,26346664,17901049,17902327,1547338,1542892,10763344,10750174,8569777,8574115,770947,784009,10754554,10758964,1538524,1551706,779629,775327,8578483,8565409,17140694,17127408,17899745,
17903631,9214844,9228126,8573891,8570001,17908167,17895209,17131620,17136482,8565465,8578427,9223914,9219056,17135026,17133076,25696813,25695499,2313235,2312269,10757560,10755958,25695667,25696645,17133232,
17134870,10755790,10757728,2312113,2313391,17136274,17131828,26352280,26339110,26993065,26997403,19194235,19207297,26343490,26347900,17127460,17140642,19202917,19198615,27001771,26988697,18439772,18426486,19198823,
19202709,10750118,10763400,10109165,10105275,19207245,19194287,18430698,18435560,10100739,10113701,10759188,10754330,18434104,18432154,26995891,26994577,777961,776995,9222286,9220684,26994745,26995723,18432310,
18433948,9220516,9222454,776839,778117,18435352,18430906,27651358,27638188,25693987,25698325,17895157,17908219,27642568,27646978,18426538,18439720,17903839,17899537,25702693,25689619,16484,9278591,1538474,
26406689,16320,10813377,1538634,27706251,10816,9281191,17134534,27704623,9352,26403925,17133082,10815169,12064,9287119,18430960,10809277,7636,27697231,18435280,26411281,9391989,129882,10704351,
17014008,9392153,1429448,10704191,18548798,9397657,127282,26286163,18550426,9399121,17016772,26287615,1427656,9396409,121354,27824089,1433548,9400837,18557818,27819769,17009416,1551758,10813865,3200,
27705767,1551594,9278103,3360,26407173,1546090,10816465,18433612,26405545,1544626,27703003,18432160,9279895,1547338,10822393,17131882,9274003,1542910,26398153,17136202,27710359,10691067,1428960,9405273,
18549282,10691231,130370,9405113,17013524,10696735,1426360,27821437,17015152,10698199,18552046,27822889,128578,10695487,1420432,26288815,134470,10699915,17022544,26284495,18544690,17140694,26402801,18426488,
9282479,17140530,27701391,18426648,10818237,17135026,26405401,10324,10816609,17133562,9279715,8872,27703183,17136274,26411329,1542946,27697291,17131846,10809217,1547266,9287071,26280003,17017896,27828561,
125994,26280167,18553658,27828401,1424588,26285671,17015296,9398149,1426216,26287135,128758,9399601,18551866,26284423,17009368,10699879,18557758,26288851,1433608,10695559,121402,18439772,27701879,17127410,
10817753,18439608,26402313,17127570,9282963,18434104,27704479,1545598,9281335,18432640,10814989,1544146,26404105,18435352,27710407,7672,26398213,18430924,9273943,11992,10822345,27815277,18553170,26293287,
1425072,27815441,17018384,26293127,125510,27820945,18550570,10697227,127138,27822409,1427836,10698679,17016592,27819697,18544642,9400801,17022484,27824125,134530,9396481,1420480,16484,3198,893633,
897519,26339054,26352336,25580003,25576113,783957,770999,125508,130370,25689675,25702637,26230026,26225168,10816,8866,25578715,25577401,19201249,19200283,10639462,10637860,8571457,8572435,17015134,
17016772,27643804,27645742,2194015,2195293,12064,7618,10645246,10632076,10105051,10109389,889045,902107,9219280,9223690,1420426,1433608,2314903,2310601,8696581,8683507,1551758,1538472,2192711,
2196597,27638132,27651414,27115277,27111387,2319231,2306273,1424586,1429448,26988753,27001715,27765300,27760442,1546090,1544140,27113989,27112675,17902171,17901205,9340384,9338782,10106731,10107709,18550408,
18552046,26344726,26346664,894937,896215,1547338,1542892,9346168,9332998,8569777,8574115,2188123,2201185,10754554,10758964,121348,134530,779629,775327,9995659,9982585,17140694,17127408,17781647,
17785533,9214844,9228126,8691989,8688099,17908167,17895209,17013522,17018384,8565465,8578427,9342012,9337154,17135026,17133076,8690701,8689387,2313235,2312269,27763672,27762070,25695667,25696645,127120,
128758,10755790,10757728,19318225,19319503,17136274,17131828,27769456,27756286,26993065,26997403,17777059,17790121,26343490,26347900,18544636,18557818,19202917,19198615,25584595,25571521,18439772,18426486,19316921,
19320807,10750118,10763400,9991067,9987177,19207245,19194287,18548796,18553658,10100739,10113701,10641090,10636232,18434104,18432154,9989779,9988465,777961,776995,26228398,26226796,26994745,26995723,1426198,
1427836,9220516,9222454,17782951,17784229,18435352,18430906,26234182,26221012,25693987,25698325,19312333,19325395,27642568,27646978,17009362,17022544,17903839,17899537,27119869,27106795,16484,3198,7898,
11784,3200,16482,11786,7896,16320,3362,7410,12272,3360,16322,12270,7412,10816,8866,10498,9184,10324,9358,10642,9040,9352,10330,9022,
10660,8872,10810,9202,10480,12064,7618,16426,3256,7672,12010,3310,16372,7636,12046,3250,16432,11992,7690,16378,3304,18557870,18544584,18549284,
18553170,18544586,18557868,18553172,18549282,18557706,18544748,18548796,18553658,18544746,18557708,18553656,18548798,18552202,18550252,18551884,18550570,18551710,18550744,18552028,18550426,18550738,18551716,18550408,
18552046,18550258,18552196,18550588,18551866,18553450,18549004,18557812,18544642,18549058,18553396,18544696,18557758,18549022,18553432,18544636,18557818,18553378,18549076,18557764,18544690,16484,3198,10695767,
10699653,17127410,17140692,9400577,9396687,134418,121460,9278103,9282965,17009472,17022434,10818237,10813379,10816,8866,9399289,9397975,18433612,18432646,26287447,26285845,17015464,17016442,9279715,
9281353,1426048,1427986,26404105,26405383,12064,7618,26293231,26280061,1542946,1547284,10691179,10704241,1424812,1429222,9273943,9287125,130090,125788,27710359,27697285,18557870,18544584,26402801,
26406687,1420376,1433658,27705767,27701877,18439608,18426650,27819489,27824351,1538634,1551596,26289075,26284217,18552202,18550252,27704479,27703165,128422,127456,10816609,10815007,1544626,1545604,27821101,
27822739,17133082,17135020,10697071,10698349,18553450,18549004,10822393,10809223,17013784,17018122,26398213,26411275,17131846,17136256,27815329,27828511,18435280,18430978,9405169,9392095,
};
static const int count_first[531][2]={
{0,0},{1,1},{2,2},{2,4},{2,6},{2,8},{2,10},{2,12},{2,14},{4,16},{4,20},{4,24},
{4,28},{4,32},{4,36},{4,40},{4,44},{4,48},{2,52},{2,54},{2,56},{2,58},{2,60},{2,62},
{2,64},{2,66},{2,68},{2,70},{2,72},{2,74},{4,76},{4,80},{4,84},{4,88},{4,92},{4,96},
{4,100},{4,104},{4,108},{4,112},{4,116},{4,120},{4,124},{4,128},{4,132},{4,136},{4,140},{4,144},
{4,148},{4,152},{4,156},{4,160},{4,164},{4,168},{4,172},{4,176},{4,180},{4,184},{4,188},{4,192},
{4,196},{4,200},{4,204},{8,208},{8,216},{8,224},{8,232},{8,240},{8,248},{8,256},{8,264},{8,272},
{4,280},{4,284},{4,288},{4,292},{4,296},{4,300},{4,304},{4,308},{4,312},{4,316},{4,320},{4,324},
{4,328},{4,332},{4,336},{4,340},{4,344},{4,348},{8,352},{8,360},{8,368},{8,376},{8,384},{8,392},
{8,400},{8,408},{8,416},{8,424},{8,432},{8,440},{8,448},{8,456},{8,464},{8,472},{8,480},{8,488},
{4,496},{4,500},{4,504},{4,508},{4,512},{4,516},{4,520},{4,524},{8,528},{8,536},{8,544},{8,552},
{8,560},{8,568},{16,576},{8,592},{8,600},{4,608},{4,612},{4,616},{4,620},{4,624},{4,628},{4,632},
{4,636},{4,640},{4,644},{4,648},{4,652},{4,656},{4,660},{4,664},{4,668},{4,672},{4,676},{4,680},
{4,684},{4,688},{4,692},{4,696},{4,700},{4,704},{4,708},{4,712},{4,716},{4,720},{4,724},{4,728},
{4,732},{4,736},{4,740},{4,744},{4,748},{4,752},{4,756},{4,760},{4,764},{4,768},{4,772},{4,776},
{4,780},{4,784},{4,788},{4,792},{4,796},{8,800},{8,808},{8,816},{8,824},{8,832},{8,840},{8,848},
{8,856},{8,864},{8,872},{8,880},{8,888},{8,896},{8,904},{8,912},{8,920},{8,928},{8,936},{8,944},
{8,952},{8,960},{8,968},{8,976},{8,984},{8,992},{8,1000},{8,1008},{8,1016},{8,1024},{8,1032},{8,1040},
{8,1048},{8,1056},{8,1064},{8,1072},{8,1080},{16,1088},{16,1104},{16,1120},{16,1136},{16,1152},{16,1168},{8,1184},
{8,1192},{8,1200},{8,1208},{8,1216},{8,1224},{8,1232},{8,1240},{8,1248},{8,1256},{8,1264},{8,1272},{8,1280},
{8,1288},{8,1296},{8,1304},{8,1312},{8,1320},{8,1328},{8,1336},{8,1344},{8,1352},{8,1360},{8,1368},{8,1376},
{8,1384},{8,1392},{8,1400},{8,1408},{8,1416},{8,1424},{8,1432},{8,1440},{8,1448},{8,1456},{8,1464},{8,1472},
{8,1480},{8,1488},{8,1496},{8,1504},{8,1512},{8,1520},{8,1528},{8,1536},{8,1544},{8,1552},{8,1560},{8,1568},
{8,1576},{8,1584},{8,1592},{8,1600},{8,1608},{8,1616},{8,1624},{8,1632},{8,1640},{8,1648},{8,1656},{8,1664},
{8,1672},{8,1680},{8,1688},{8,1696},{8,1704},{8,1712},{8,1720},{8,1728},{8,1736},{8,1744},{8,1752},{8,1760},
{8,1768},{8,1776},{8,1784},{8,1792},{8,1800},{8,1808},{8,1816},{8,1824},{8,1832},{8,1840},{16,1848},{16,1864},
{16,1880},{16,1896},{16,1912},{16,1928},{16,1944},{16,1960},{16,1976},{16,1992},{16,2008},{16,2024},{16,2040},{16,2056},
{16,2072},{16,2088},{16,2104},{16,2120},{16,2136},{16,2152},{16,2168},{16,2184},{16,2200},{16,2216},{16,2232},{16,2248},
{16,2264},{16,2280},{16,2296},{16,2312},{16,2328},{16,2344},{16,2360},{16,2376},{16,2392},{16,2408},{32,2424},{32,2456},
{32,2488},{16,2520},{16,2536},{16,2552},{16,2568},{16,2584},{16,2600},{16,2616},{16,2632},{16,2648},{16,2664},{16,2680},
{16,2696},{4,2712},{4,2716},{4,2720},{4,2724},{8,2728},{8,2736},{4,2744},{8,2748},{8,2756},{8,2764},{8,2772},
{8,2780},{8,2788},{8,2796},{16,2804},{16,2820},{16,2836},{8,2852},{8,2860},{8,2868},{8,2876},{8,2884},{8,2892},
{8,2900},{8,2908},{16,2916},{16,2932},{8,2948},{8,2956},{8,2964},{8,2972},{8,2980},{8,2988},{8,2996},{8,3004},
{16,3012},{16,3028},{16,3044},{16,3060},{8,3076},{8,3084},{8,3092},{8,3100},{8,3108},{8,3116},{8,3124},{8,3132},
{16,3140},{16,3156},{16,3172},{16,3188},{16,3204},{16,3220},{16,3236},{16,3252},{16,3268},{16,3284},{16,3300},{16,3316},
{16,3332},{16,3348},{16,3364},{16,3380},{16,3396},{16,3412},{16,3428},{16,3444},{16,3460},{16,3476},{16,3492},{16,3508},
{16,3524},{16,3540},{16,3556},{16,3572},{32,3588},{32,3620},{32,3652},{32,3684},{32,3716},{32,3748},{3,3780},{3,3783},
{3,3786},{9,3789},{3,3798},{6,3801},{18,3807},{6,3825},{6,3831},{6,3837},{6,3843},{6,3849},{6,3855},{6,3861},
{18,3867},{6,3885},{6,3891},{6,3897},{6,3903},{6,3909},{18,3915},{6,3933},{18,3939},{6,3957},{12,3963},{12,3975},
{12,3987},{12,3999},{36,4011},{12,4047},{36,4059},{12,4095},{6,4107},{6,4113},{6,4119},{6,4125},{6,4131},{6,4137},
{6,4143},{12,4149},{12,4161},{12,4173},{12,4185},{12,4197},{12,4209},{12,4221},{12,4233},{12,4245},{12,4257},{12,4269},
{12,4281},{12,4293},{12,4305},{12,4317},{12,4329},{24,4341},{24,4365},{24,4389},{24,4413},{12,4437},{48,4449},{24,4497},
{12,4521},{24,4533},{24,4557},{24,4581},{24,4605},{96,4629},{96,4725},{96,4821},{48,4917},{24,4965},{48,4989},{24,5037},
{24,5061},{96,5085},{96,5181},{48,5277},{24,5325},{24,5349},{48,5373},{24,5421},{96,5445},{48,5541},{24,5589},{96,5613},
{48,5709},{48,5757},{48,5805},{48,5853},{48,5901},{48,5949},{48,5997},{192,6045},{192,6237},{192,6429},{192,6621},{192,6813},
{192,7005},{96,7197},{96,7293},
};
struct Row { int number; const char *schoenflies,*hall,*name,*full,*brief,*choice; char bravais; int pointgroup; };
static const Row row[531]={
{0,"","","","","","",'!',0},
{1,"C1^1","P 1","P 1","P 1","P1","",'P',1},
{2,"Ci^1","-P 1","P -1","P -1","P-1","",'P',2},
{3,"C2^1","P 2y","P 2 = P 1 2 1","P 1 2 1","P2","b",'P',3},
{3,"C2^1","P 2","P 2 = P 1 1 2","P 1 1 2","P2","c",'P',3},
{3,"C2^1","P 2x","P 2 = P 2 1 1","P 2 1 1","P2","a",'P',3},
{4,"C2^2","P 2yb","P 2_1 = P 1 2_1 1","P 1 2_1 1","P2_1","b",'P',3},
{4,"C2^2","P 2c","P 2_1 = P 1 1 2_1","P 1 1 2_1","P2_1","c",'P',3},
{4,"C2^2","P 2xa","P 2_1 = P 2_1 1 1","P 2_1 1 1","P2_1","a",'P',3},
{5,"C2^3","C 2y","C 2 = C 1 2 1","C 1 2 1","C2","b1",'C',3},
{5,"C2^3","A 2y","C 2 = A 1 2 1","A 1 2 1","C2","b2",'A',3},
{5,"C2^3","I 2y","C 2 = I 1 2 1","I 1 2 1","C2","b3",'I',3},
{5,"C2^3","A 2","C 2 = A 1 1 2","A 1 1 2","C2","c1",'A',3},
{5,"C2^3","B 2","C 2 = B 1 1 2 = B 2","B 1 1 2","C2","c2",'B',3},
{5,"C2^3","I 2","C 2 = I 1 1 2","I 1 1 2","C2","c3",'I',3},
{5,"C2^3","B 2x","C 2 = B 2 1 1","B 2 1 1","C2","a1",'B',3},
{5,"C2^3","C 2x","C 2 = C 2 1 1","C 2 1 1","C2","a2",'C',3},
{5,"C2^3","I 2x","C 2 = I 2 1 1","I 2 1 1","C2","a3",'I',3},
{6,"Cs^1","P -2y","P m = P 1 m 1","P 1 m 1","Pm","b",'P',4},
{6,"Cs^1","P -2","P m = P 1 1 m","P 1 1 m","Pm","c",'P',4},
{6,"Cs^1","P -2x","P m = P m 1 1","P m 1 1","Pm","a",'P',4},
{7,"Cs^2","P -2yc","P c = P 1 c 1","P 1 c 1","Pc","b1",'P',4},
{7,"Cs^2","P -2yac","P c = P 1 n 1","P 1 n 1","Pc","b2",'P',4},
{7,"Cs^2","P -2ya","P c = P 1 a 1","P 1 a 1","Pc","b3",'P',4},
{7,"Cs^2","P -2a","P c = P 1 1 a","P 1 1 a","Pc","c1",'P',4},
{7,"Cs^2","P -2ab","P c = P 1 1 n","P 1 1 n","Pc","c2",'P',4},
{7,"Cs^2","P -2b","P c = P 1 1 b = P b","P 1 1 b","Pc","c3",'P',4},
{7,"Cs^2","P -2xb","P c = P b 1 1","P b 1 1","Pc","a1",'P',4},
{7,"Cs^2","P -2xbc","P c = P n 1 1","P n 1 1","Pc","a2",'P',4},
{7,"Cs^2","P -2xc","P c = P c 1 1","P c 1 1","Pc","a3",'P',4},
{8,"Cs^3","C -2y","C m = C 1 m 1","C 1 m 1","Cm","b1",'C',4},
{8,"Cs^3","A -2y","C m = A 1 m 1","A 1 m 1","Cm","b2",'A',4},
{8,"Cs^3","I -2y","C m = I 1 m 1","I 1 m 1","Cm","b3",'I',4},
{8,"Cs^3","A -2","C m = A 1 1 m","A 1 1 m","Cm","c1",'A',4},
{8,"Cs^3","B -2","C m = B 1 1 m = B m","B 1 1 m","Cm","c2",'B',4},
{8,"Cs^3","I -2","C m = I 1 1 m","I 1 1 m","Cm","c3",'I',4},
{8,"Cs^3","B -2x","C m = B m 1 1","B m 1 1","Cm","a1",'B',4},
{8,"Cs^3","C -2x","C m = C m 1 1","C m 1 1","Cm","a2",'C',4},
{8,"Cs^3","I -2x","C m = I m 1 1","I m 1 1","Cm","a3",'I',4},
{9,"Cs^4","C -2yc","C c = C 1 c 1","C 1 c 1","Cc","b1",'C',4},
{9,"Cs^4","A -2yac","C c = A 1 n 1","A 1 n 1","Cc","b2",'A',4},
{9,"Cs^4","I -2ya","C c = I 1 a 1","I 1 a 1","Cc","b3",'I',4},
{9,"Cs^4","A -2ya","C c = A 1 a 1","A 1 a 1","Cc","-b1",'A',4},
{9,"Cs^4","C -2ybc","C c = C 1 n 1","C 1 n 1","Cc","-b2",'C',4},
{9,"Cs^4","I -2yc","C c = I 1 c 1","I 1 c 1","Cc","-b3",'I',4},
{9,"Cs^4","A -2a","C c = A 1 1 a","A 1 1 a","Cc","c1",'A',4},
{9,"Cs^4","B -2bc","C c = B 1 1 n","B 1 1 n","Cc","c2",'B',4},
{9,"Cs^4","I -2b","C c = I 1 1 b","I 1 1 b","Cc","c3",'I',4},
{9,"Cs^4","B -2b","C c = B 1 1 b = B b","B 1 1 b","Cc","-c1",'B',4},
{9,"Cs^4","A -2ac","C c = A 1 1 n","A 1 1 n","Cc","-c2",'A',4},
{9,"Cs^4","I -2a","C c = I 1 1 a","I 1 1 a","Cc","-c3",'I',4},
{9,"Cs^4","B -2xb","C c = B b 1 1","B b 1 1","Cc","a1",'B',4},
{9,"Cs^4","C -2xbc","C c = C n 1 1","C n 1 1","Cc","a2",'C',4},
{9,"Cs^4","I -2xc","C c = I c 1 1","I c 1 1","Cc","a3",'I',4},
{9,"Cs^4","C -2xc","C c = C c 1 1","C c 1 1","Cc","-a1",'C',4},
{9,"Cs^4","B -2xbc","C c = B n 1 1","B n 1 1","Cc","-a2",'B',4},
{9,"Cs^4","I -2xb","C c = I b 1 1","I b 1 1","Cc","-a3",'I',4},
{10,"C2h^1","-P 2y","P 2/m = P 1 2/m 1","P 1 2/m 1","P2/m","b",'P',5},
{10,"C2h^1","-P 2","P 2/m = P 1 1 2/m","P 1 1 2/m","P2/m","c",'P',5},
{10,"C2h^1","-P 2x","P 2/m = P 2/m 1 1","P 2/m 1 1","P2/m","a",'P',5},
{11,"C2h^2","-P 2yb","P 2_1/m = P 1 2_1/m 1","P 1 2_1/m 1","P2_1/m","b",'P',5},
{11,"C2h^2","-P 2c","P 2_1/m = P 1 1 2_1/m","P 1 1 2_1/m","P2_1/m","c",'P',5},
{11,"C2h^2","-P 2xa","P 2_1/m = P 2_1/m 1 1","P 2_1/m 1 1","P2_1/m","a",'P',5},
{12,"C2h^3","-C 2y","C 2/m = C 1 2/m 1","C 1 2/m 1","C2/m","b1",'C',5},
{12,"C2h^3","-A 2y","C 2/m = A 1 2/m 1","A 1 2/m 1","C2/m","b2",'A',5},
{12,"C2h^3","-I 2y","C 2/m = I 1 2/m 1","I 1 2/m 1","C2/m","b3",'I',5},
{12,"C2h^3","-A 2","C 2/m = A 1 1 2/m","A 1 1 2/m","C2/m","c1",'A',5},
{12,"C2h^3","-B 2","C 2/m = B 1 1 2/m = B 2/m","B 1 1 2/m","C2/m","c2",'B',5},
{12,"C2h^3","-I 2","C 2/m = I 1 1 2/m","I 1 1 2/m","C2/m","c3",'I',5},
{12,"C2h^3","-B 2x","C 2/m = B 2/m 1 1","B 2/m 1 1","C2/m","a1",'B',5},
{12,"C2h^3","-C 2x","C 2/m = C 2/m 1 1","C 2/m 1 1","C2/m","a2",'C',5},
{12,"C2h^3","-I 2x","C 2/m = I 2/m 1 1","I 2/m 1 1","C2/m","a3",'I',5},
{13,"C2h^4","-P 2yc","P 2/c = P 1 2/c 1","P 1 2/c 1","P2/c","b1",'P',5},
{13,"C2h^4","-P 2yac","P 2/c = P 1 2/n 1","P 1 2/n 1","P2/c","b2",'P',5},
{13,"C2h^4","-P 2ya","P 2/c = P 1 2/a 1","P 1 2/a 1","P2/c","b3",'P',5},
{13,"C2h^4","-P 2a","P 2/c = P 1 1 2/a","P 1 1 2/a","P2/c","c1",'P',5},
{13,"C2h^4","-P 2ab","P 2/c = P 1 1 2/n","P 1 1 2/n","P2/c","c2",'P',5},
{13,"C2h^4","-P 2b","P 2/c = P 1 1 2/b = P 2/b","P 1 1 2/b","P2/c","c3",'P',5},
{13,"C2h^4","-P 2xb","P 2/c = P 2/b 1 1","P 2/b 1 1","P2/c","a1",'P',5},
{13,"C2h^4","-P 2xbc","P 2/c = P 2/n 1 1","P 2/n 1 1","P2/c","a2",'P',5},
{13,"C2h^4","-P 2xc","P 2/c = P 2/c 1 1","P 2/c 1 1","P2/c","a3",'P',5},
{14,"C2h^5","-P 2ybc","P 2_1/c = P 1 2_1/c 1","P 1 2_1/c 1","P2_1/c","b1",'P',5},
{14,"C2h^5","-P 2yn","P 2_1/c = P 1 2_1/n 1","P 1 2_1/n 1","P2_1/c","b2",'P',5},
{14,"C2h^5","-P 2yab","P 2_1/c = P 1 2_1/a 1","P 1 2_1/a 1","P2_1/c","b3",'P',5},
{14,"C2h^5","-P 2ac","P 2_1/c = P 1 1 2_1/a","P 1 1 2_1/a","P2_1/c","c1",'P',5},
{14,"C2h^5","-P 2n","P 2_1/c = P 1 1 2_1/n","P 1 1 2_1/n","P2_1/c","c2",'P',5},
{14,"C2h^5","-P 2bc","P 2_1/c = P 1 1 2_1/b = P 2_1/b","P 1 1 2_1/b","P2_1/c","c3",'P',5},
{14,"C2h^5","-P 2xab","P 2_1/c = P 2_1/b 1 1","P 2_1/b 1 1","P2_1/c","a1",'P',5},
{14,"C2h^5","-P 2xn","P 2_1/c = P 2_1/n 1 1","P 2_1/n 1 1","P2_1/c","a2",'P',5},
{14,"C2h^5","-P 2xac","P 2_1/c = P 2_1/c 1 1","P 2_1/c 1 1","P2_1/c","a3",'P',5},
{15,"C2h^6","-C 2yc","C 2/c = C 1 2/c 1","C 1 2/c 1","C2/c","b1",'C',5},
{15,"C2h^6","-A 2yac","C 2/c = A 1 2/n 1","A 1 2/n 1","C2/c","b2",'A',5},
{15,"C2h^6","-I 2ya","C 2/c = I 1 2/a 1","I 1 2/a 1","C2/c","b3",'I',5},
{15,"C2h^6","-A 2ya","C 2/c = A 1 2/a 1","A 1 2/a 1","C2/c","-b1",'A',5},
{15,"C2h^6","-C 2ybc","C 2/c = C 1 2/n 1","C 1 2/n 1","C2/c","-b2",'C',5},
{15,"C2h^6","-I 2yc","C 2/c = I 1 2/c 1","I 1 2/c 1","C2/c","-b3",'I',5},
{15,"C2h^6","-A 2a","C 2/c = A 1 1 2/a","A 1 1 2/a","C2/c","c1",'A',5},
{15,"C2h^6","-B 2bc","C 2/c = B 1 1 2/n","B 1 1 2/n","C2/c","c2",'B',5},
{15,"C2h^6","-I 2b","C 2/c = I 1 1 2/b","I 1 1 2/b","C2/c","c3",'I',5},
{15,"C2h^6","-B 2b","C 2/c = B 1 1 2/b = B 2/b","B 1 1 2/b","C2/c","-c1",'B',5},
{15,"C2h^6","-A 2ac","C 2/c = A 1 1 2/n","A 1 1 2/n","C2/c","-c2",'A',5},
{15,"C2h^6","-I 2a","C 2/c = I 1 1 2/a","I 1 1 2/a","C2/c","-c3",'I',5},
{15,"C2h^6","-B 2xb","C 2/c = B 2/b 1 1","B 2/b 1 1","C2/c","a1",'B',5},
{15,"C2h^6","-C 2xbc","C 2/c = C 2/n 1 1","C 2/n 1 1","C2/c","a2",'C',5},
{15,"C2h^6","-I 2xc","C 2/c = I 2/c 1 1","I 2/c 1 1","C2/c","a3",'I',5},
{15,"C2h^6","-C 2xc","C 2/c = C 2/c 1 1","C 2/c 1 1","C2/c","-a1",'C',5},
{15,"C2h^6","-B 2xbc","C 2/c = B 2/n 1 1","B 2/n 1 1","C2/c","-a2",'B',5},
{15,"C2h^6","-I 2xb","C 2/c = I 2/b 1 1","I 2/b 1 1","C2/c","-a3",'I',5},
{16,"D2^1","P 2 2","P 2 2 2","P 2 2 2","P222","",'P',6},
{17,"D2^2","P 2c 2","P 2 2 2_1","P 2 2 2_1","P222_1","",'P',6},
{17,"D2^2","P 2a 2a","P 2_1 2 2","P 2_1 2 2","P2_122","cab",'P',6},
{17,"D2^2","P 2 2b","P 2 2_1 2","P 2 2_1 2","P22_12","bca",'P',6},
{18,"D2^3","P 2 2ab","P 2_1 2_1 2","P 2_1 2_1 2","P2_12_12","",'P',6},
{18,"D2^3","P 2bc 2","P 2 2_1 2_1","P 2 2_1 2_1","P22_12_1","cab",'P',6},
{18,"D2^3","P 2ac 2ac","P 2_1 2 2_1","P 2_1 2 2_1","P2_122_1","bca",'P',6},
{19,"D2^4","P 2ac 2ab","P 2_1 2_1 2_1","P 2_1 2_1 2_1","P2_12_12_1","",'P',6},
{20,"D2^5","C 2c 2","C 2 2 2_1","C 2 2 2_1","C222_1","",'C',6},
{20,"D2^5","A 2a 2a","A 2_1 2 2","A 2_1 2 2","A2_122","cab",'A',6},
{20,"D2^5","B 2 2b","B 2 2_1 2","B 2 2_1 2","B22_12","bca",'B',6},
{21,"D2^6","C 2 2","C 2 2 2","C 2 2 2","C222","",'C',6},
{21,"D2^6","A 2 2","A 2 2 2","A 2 2 2","A222","cab",'A',6},
{21,"D2^6","B 2 2","B 2 2 2","B 2 2 2","B222","bca",'B',6},
{22,"D2^7","F 2 2","F 2 2 2","F 2 2 2","F222","",'F',6},
{23,"D2^8","I 2 2","I 2 2 2","I 2 2 2","I222","",'I',6},
{24,"D2^9","I 2b 2c","I 2_1 2_1 2_1","I 2_1 2_1 2_1","I2_12_12_1","",'I',6},
{25,"C2v^1","P 2 -2","P m m 2","P m m 2","Pmm2","",'P',7},
{25,"C2v^1","P -2 2","P 2 m m","P 2 m m","P2mm","cab",'P',7},
{25,"C2v^1","P -2 -2","P m 2 m","P m 2 m","Pm2m","bca",'P',7},
{26,"C2v^2","P 2c -2","P m c 2_1","P m c 2_1","Pmc2_1","",'P',7},
{26,"C2v^2","P 2c -2c","P c m 2_1","P c m 2_1","Pcm2_1","ba-c",'P',7},
{26,"C2v^2","P -2a 2a","P 2_1 m a","P 2_1 m a","P2_1ma","cab",'P',7},
{26,"C2v^2","P -2 2a","P 2_1 a m","P 2_1 a m","P2_1am","-cba",'P',7},
{26,"C2v^2","P -2 -2b","P b 2_1 m","P b 2_1 m","Pb2_1m","bca",'P',7},
{26,"C2v^2","P -2b -2","P m 2_1 b","P m 2_1 b","Pm2_1b","a-cb",'P',7},
{27,"C2v^3","P 2 -2c","P c c 2","P c c 2","Pcc2","",'P',7},
{27,"C2v^3","P -2a 2","P 2 a a","P 2 a a","P2aa","cab",'P',7},
{27,"C2v^3","P -2b -2b","P b 2 b","P b 2 b","Pb2b","bca",'P',7},
{28,"C2v^4","P 2 -2a","P m a 2","P m a 2","Pma2","",'P',7},
{28,"C2v^4","P 2 -2b","P b m 2","P b m 2","Pbm2","ba-c",'P',7},
{28,"C2v^4","P -2b 2","P 2 m b","P 2 m b","P2mb","cab",'P',7},
{28,"C2v^4","P -2c 2","P 2 c m","P 2 c m","P2cm","-cba",'P',7},
{28,"C2v^4","P -2c -2c","P c 2 m","P c 2 m","Pc2m","bca",'P',7},
{28,"C2v^4","P -2a -2a","P m 2 a","P m 2 a","Pm2a","a-cb",'P',7},
{29,"C2v^5","P 2c -2ac","P c a 2_1","P c a 2_1","Pca2_1","",'P',7},
{29,"C2v^5","P 2c -2b","P b c 2_1","P b c 2_1","Pbc2_1","ba-c",'P',7},
{29,"C2v^5","P -2b 2a","P 2_1 a b","P 2_1 a b","P2_1ab","cab",'P',7},
{29,"C2v^5","P -2ac 2a","P 2_1 c a","P 2_1 c a","P2_1ca","-cba",'P',7},
{29,"C2v^5","P -2bc -2c","P c 2_1 b","P c 2_1 b","Pc2_1b","bca",'P',7},
{29,"C2v^5","P -2a -2ab","P b 2_1 a","P b 2_1 a","Pb2_1a","a-cb",'P',7},
{30,"C2v^6","P 2 -2bc","P n c 2","P n c 2","Pnc2","",'P',7},
{30,"C2v^6","P 2 -2ac","P c n 2","P c n 2","Pcn2","ba-c",'P',7},
{30,"C2v^6","P -2ac 2","P 2 n a","P 2 n a","P2na","cab",'P',7},
{30,"C2v^6","P -2ab 2","P 2 a n","P 2 a n","P2an","-cba",'P',7},
{30,"C2v^6","P -2ab -2ab","P b 2 n","P b 2 n","Pb2n","bca",'P',7},
{30,"C2v^6","P -2bc -2bc","P n 2 b","P n 2 b","Pn2b","a-cb",'P',7},
{31,"C2v^7","P 2ac -2","P m n 2_1","P m n 2_1","Pmn2_1","",'P',7},
{31,"C2v^7","P 2bc -2bc","P n m 2_1","P n m 2_1","Pnm2_1","ba-c",'P',7},
{31,"C2v^7","P -2ab 2ab","P 2_1 m n","P 2_1 m n","P2_1mn","cab",'P',7},
{31,"C2v^7","P -2 2ac","P 2_1 n m","P 2_1 n m","P2_1nm","-cba",'P',7},
{31,"C2v^7","P -2 -2bc","P n 2_1 m","P n 2_1 m","Pn2_1m","bca",'P',7},
{31,"C2v^7","P -2ab -2","P m 2_1 n","P m 2_1 n","Pm2_1n","a-cb",'P',7},
{32,"C2v^8","P 2 -2ab","P b a 2","P b a 2","Pba2","",'P',7},
{32,"C2v^8","P -2bc 2","P 2 c b","P 2 c b","P2cb","cab",'P',7},
{32,"C2v^8","P -2ac -2ac","P c 2 a","P c 2 a","Pc2a","bca",'P',7},
{33,"C2v^9","P 2c -2n","P n a 2_1","P n a 2_1","Pna2_1","",'P',7},
{33,"C2v^9","P 2c -2ab","P b n 2_1","P b n 2_1","Pbn2_1","ba-c",'P',7},
{33,"C2v^9","P -2bc 2a","P 2_1 n b","P 2_1 n b","P2_1nb","cab",'P',7},
{33,"C2v^9","P -2n 2a","P 2_1 c n","P 2_1 c n","P2_1cn","-cba",'P',7},
{33,"C2v^9","P -2n -2ac","P c 2_1 n","P c 2_1 n","Pc2_1n","bca",'P',7},
{33,"C2v^9","P -2ac -2n","P n 2_1 a","P n 2_1 a","Pn2_1a","a-cb",'P',7},
{34,"C2v^10","P 2 -2n","P n n 2","P n n 2","Pnn2","",'P',7},
{34,"C2v^10","P -2n 2","P 2 n n","P 2 n n","P2nn","cab",'P',7},
{34,"C2v^10","P -2n -2n","P n 2 n","P n 2 n","Pn2n","bca",'P',7},
{35,"C2v^11","C 2 -2","C m m 2","C m m 2","Cmm2","",'C',7},
{35,"C2v^11","A -2 2","A 2 m m","A 2 m m","A2mm","cab",'A',7},
{35,"C2v^11","B -2 -2","B m 2 m","B m 2 m","Bm2m","bca",'B',7},
{36,"C2v^12","C 2c -2","C m c 2_1","C m c 2_1","Cmc2_1","",'C',7},
{36,"C2v^12","C 2c -2c","C c m 2_1","C c m 2_1","Ccm2_1","ba-c",'C',7},
{36,"C2v^12","A -2a 2a","A 2_1 m a","A 2_1 m a","A2_1ma","cab",'A',7},
{36,"C2v^12","A -2 2a","A 2_1 a m","A 2_1 a m","A2_1am","-cba",'A',7},
{36,"C2v^12","B -2 -2b","B b 2_1 m","B b 2_1 m","Bb2_1m","bca",'B',7},
{36,"C2v^12","B -2b -2","B m 2_1 b","B m 2_1 b","Bm2_1b","a-cb",'B',7},
{37,"C2v^13","C 2 -2c","C c c 2","C c c 2","Ccc2","",'C',7},
{37,"C2v^13","A -2a 2","A 2 a a","A 2 a a","A2aa","cab",'A',7},
{37,"C2v^13","B -2b -2b","B b 2 b","B b 2 b","Bb2b","bca",'B',7},
{38,"C2v^14","A 2 -2","A m m 2","A m m 2","Amm2","",'A',7},
{38,"C2v^14","B 2 -2","B m m 2","B m m 2","Bmm2","ba-c",'B',7},
{38,"C2v^14","B -2 2","B 2 m m","B 2 m m","B2mm","cab",'B',7},
{38,"C2v^14","C -2 2","C 2 m m","C 2 m m","C2mm","-cba",'C',7},
{38,"C2v^14","C -2 -2","C m 2 m","C m 2 m","Cm2m","bca",'C',7},
{38,"C2v^14","A -2 -2","A m 2 m","A m 2 m","Am2m","a-cb",'A',7},
{39,"C2v^15","A 2 -2c","A e m 2","A e m 2","Aem2","",'A',7},
{39,"C2v^15","B 2 -2c","B m e 2","B m e 2","Bme2","ba-c",'B',7},
{39,"C2v^15","B -2c 2","B 2 e m","B 2 e m","B2em","cab",'B',7},
{39,"C2v^15","C -2b 2","C 2 m e","C 2 m e","C2me","-cba",'C',7},
{39,"C2v^15","C -2b -2b","C m 2 e","C m 2 e","Cm2e","bca",'C',7},
{39,"C2v^15","A -2c -2c","A e 2 m","A e 2 m","Ae2m","a-cb",'A',7},
{40,"C2v^16","A 2 -2a","A m a 2","A m a 2","Ama2","",'A',7},
{40,"C2v^16","B 2 -2b","B b m 2","B b m 2","Bbm2","ba-c",'B',7},
{40,"C2v^16","B -2b 2","B 2 m b","B 2 m b","B2mb","cab",'B',7},
{40,"C2v^16","C -2c 2","C 2 c m","C 2 c m","C2cm","-cba",'C',7},
{40,"C2v^16","C -2c -2c","C c 2 m","C c 2 m","Cc2m","bca",'C',7},
{40,"C2v^16","A -2a -2a","A m 2 a","A m 2 a","Am2a","a-cb",'A',7},
{41,"C2v^17","A 2 -2ac","A e a 2","A e a 2","Aea2","",'A',7},
{41,"C2v^17","B 2 -2bc","B b e 2","B b e 2","Bbe2","ba-c",'B',7},
{41,"C2v^17","B -2bc 2","B 2 e b","B 2 e b","B2eb","cab",'B',7},
{41,"C2v^17","C -2bc 2","C 2 c e","C 2 c e","C2ce","-cba",'C',7},
{41,"C2v^17","C -2bc -2bc","C c 2 e","C c 2 e","Cc2e","bca",'C',7},
{41,"C2v^17","A -2ac -2ac","A e 2 a","A e 2 a","Ae2a","a-cb",'A',7},
{42,"C2v^18","F 2 -2","F m m 2","F m m 2","Fmm2","",'F',7},
{42,"C2v^18","F -2 2","F 2 m m","F 2 m m","F2mm","cab",'F',7},
{42,"C2v^18","F -2 -2","F m 2 m","F m 2 m","Fm2m","bca",'F',7},
{43,"C2v^19","F 2 -2d","F d d 2","F d d 2","Fdd2","",'F',7},
{43,"C2v^19","F -2d 2","F 2 d d","F 2 d d","F2dd","cab",'F',7},
{43,"C2v^19","F -2d -2d","F d 2 d","F d 2 d","Fd2d","bca",'F',7},
{44,"C2v^20","I 2 -2","I m m 2","I m m 2","Imm2","",'I',7},
{44,"C2v^20","I -2 2","I 2 m m","I 2 m m","I2mm","cab",'I',7},
{44,"C2v^20","I -2 -2","I m 2 m","I m 2 m","Im2m","bca",'I',7},
{45,"C2v^21","I 2 -2c","I b a 2","I b a 2","Iba2","",'I',7},
{45,"C2v^21","I -2a 2","I 2 c b","I 2 c b","I2cb","cab",'I',7},
{45,"C2v^21","I -2b -2b","I c 2 a","I c 2 a","Ic2a","bca",'I',7},
{46,"C2v^22","I 2 -2a","I m a 2","I m a 2","Ima2","",'I',7},
{46,"C2v^22","I 2 -2b","I b m 2","I b m 2","Ibm2","ba-c",'I',7},
{46,"C2v^22","I -2b 2","I 2 m b","I 2 m b","I2mb","cab",'I',7},
{46,"C2v^22","I -2c 2","I 2 c m","I 2 c m","I2cm","-cba",'I',7},
{46,"C2v^22","I -2c -2c","I c 2 m","I c 2 m","Ic2m","bca",'I',7},
{46,"C2v^22","I -2a -2a","I m 2 a","I m 2 a","Im2a","a-cb",'I',7},
{47,"D2h^1","-P 2 2","P m m m","P 2/m 2/m 2/m","Pmmm","",'P',8},
{48,"D2h^2","P 2 2 -1n","P n n n","P 2/n 2/n 2/n","Pnnn","1",'P',8},
{48,"D2h^2","-P 2ab 2bc","P n n n","P 2/n 2/n 2/n","Pnnn","2",'P',8},
{49,"D2h^3","-P 2 2c","P c c m","P 2/c 2/c 2/m","Pccm","",'P',8},
{49,"D2h^3","-P 2a 2","P m a a","P 2/m 2/a 2/a","Pmaa","cab",'P',8},
{49,"D2h^3","-P 2b 2b","P b m b","P 2/b 2/m 2/b","Pbmb","bca",'P',8},
{50,"D2h^4","P 2 2 -1ab","P b a n","P 2/b 2/a 2/n","Pban","1",'P',8},
{50,"D2h^4","-P 2ab 2b","P b a n","P 2/b 2/a 2/n","Pban","2",'P',8},
{50,"D2h^4","P 2 2 -1bc","P n c b","P 2/n 2/c 2/b","Pncb","1cab",'P',8},
{50,"D2h^4","-P 2b 2bc","P n c b","P 2/n 2/c 2/b","Pncb","2cab",'P',8},
{50,"D2h^4","P 2 2 -1ac","P c n a","P 2/c 2/n 2/a","Pcna","1bca",'P',8},
{50,"D2h^4","-P 2a 2c","P c n a","P 2/c 2/n 2/a","Pcna","2bca",'P',8},
{51,"D2h^5","-P 2a 2a","P m m a","P 2_1/m 2/m 2/a","Pmma","",'P',8},
{51,"D2h^5","-P 2b 2","P m m b","P 2/m 2_1/m 2/b","Pmmb","ba-c",'P',8},
{51,"D2h^5","-P 2 2b","P b m m","P 2/b 2_1/m 2/m","Pbmm","cab",'P',8},
{51,"D2h^5","-P 2c 2c","P c m m","P 2/c 2/m 2_1/m","Pcmm","-cba",'P',8},
{51,"D2h^5","-P 2c 2","P m c m","P 2/m 2/c 2_1/m","Pmcm","bca",'P',8},
{51,"D2h^5","-P 2 2a","P m a m","P 2_1/m 2/a 2/m","Pmam","a-cb",'P',8},
{52,"D2h^6","-P 2a 2bc","P n n a","P 2/n 2_1/n 2/a","Pnna","",'P',8},
{52,"D2h^6","-P 2b 2n","P n n b","P 2_1/n 2/n 2/b","Pnnb","ba-c",'P',8},
{52,"D2h^6","-P 2n 2b","P b n n","P 2/b 2/n 2_1/n","Pbnn","cab",'P',8},
{52,"D2h^6","-P 2ab 2c","P c n n","P 2/c 2_1/n 2/n","Pcnn","-cba",'P',8},
{52,"D2h^6","-P 2ab 2n","P n c n","P 2_1/n 2/c 2/n","Pncn","bca",'P',8},
{52,"D2h^6","-P 2n 2bc","P n a n","P 2/n 2/a 2_1/n","Pnan","a-cb",'P',8},
{53,"D2h^7","-P 2ac 2","P m n a","P 2/m 2/n 2_1/a","Pmna","",'P',8},
{53,"D2h^7","-P 2bc 2bc","P n m b","P 2/n 2/m 2_1/b","Pnmb","ba-c",'P',8},
{53,"D2h^7","-P 2ab 2ab","P b m n","P 2_1/b 2/m 2/n","Pbmn","cab",'P',8},
{53,"D2h^7","-P 2 2ac","P c n m","P 2_1/c 2/n 2/m","Pcnm","-cba",'P',8},
{53,"D2h^7","-P 2 2bc","P n c m","P 2/n 2_1/c 2/m","Pncm","bca",'P',8},
{53,"D2h^7","-P 2ab 2","P m a n","P 2/m 2_1/a 2/n","Pman","a-cb",'P',8},
{54,"D2h^8","-P 2a 2ac","P c c a","P 2_1/c 2/c 2/a","Pcca","",'P',8},
{54,"D2h^8","-P 2b 2c","P c c b","P 2/c 2_1/c 2/b","Pccb","ba-c",'P',8},
{54,"D2h^8","-P 2a 2b","P b a a","P 2/b 2_1/a 2/a","Pbaa","cab",'P',8},
{54,"D2h^8","-P 2ac 2c","P c a a","P 2/c 2/a 2_1/a","Pcaa","-cba",'P',8},
{54,"D2h^8","-P 2bc 2b","P b c b","P 2/b 2/c 2_1/b","Pbcb","bca",'P',8},
{54,"D2h^8","-P 2b 2ab","P b a b","P 2_1/b 2/a 2/b","Pbab","a-cb",'P',8},
{55,"D2h^9","-P 2 2ab","P b a m","P 2_1/b 2_1/a 2/m","Pbam","",'P',8},
{55,"D2h^9","-P 2bc 2","P m c b","P 2/m 2_1/c 2_1/b","Pmcb","cab",'P',8},
{55,"D2h^9","-P 2ac 2ac","P c m a","P 2_1/c 2/m 2_1/a","Pcma","bca",'P',8},
{56,"D2h^10","-P 2ab 2ac","P c c n","P 2_1/c 2_1/c 2/n","Pccn","",'P',8},
{56,"D2h^10","-P 2ac 2bc","P n a a","P 2/n 2_1/a 2_1/a","Pnaa","cab",'P',8},
{56,"D2h^10","-P 2bc 2ab","P b n b","P 2_1/b 2/n 2_1/b","Pbnb","bca",'P',8},
{57,"D2h^11","-P 2c 2b","P b c m","P 2/b 2_1/c 2_1/m","Pbcm","",'P',8},
{57,"D2h^11","-P 2c 2ac","P c a m","P 2_1/c 2/a 2_1/m","Pcam","ba-c",'P',8},
{57,"D2h^11","-P 2ac 2a","P m c a","P 2_1/m 2/c 2_1/a","Pmca","cab",'P',8},
{57,"D2h^11","-P 2b 2a","P m a b","P 2_1/m 2_1/a 2/b","Pmab","-cba",'P',8},
{57,"D2h^11","-P 2a 2ab","P b m a","P 2_1/b 2_1/m 2/a","Pbma","bca",'P',8},
{57,"D2h^11","-P 2bc 2c","P c m b","P 2/c 2_1/m 2_1/b","Pcmb","a-cb",'P',8},
{58,"D2h^12","-P 2 2n","P n n m","P 2_1/n 2_1/n 2/m","Pnnm","",'P',8},
{58,"D2h^12","-P 2n 2","P m n n","P 2/m 2_1/n 2_1/n","Pmnn","cab",'P',8},
{58,"D2h^12","-P 2n 2n","P n m n","P 2_1/n 2/m 2_1/n","Pnmn","bca",'P',8},
{59,"D2h^13","P 2 2ab -1ab","P m m n","P 2_1/m 2_1/m 2/n","Pmmn","1",'P',8},
{59,"D2h^13","-P 2ab 2a","P m m n","P 2_1/m 2_1/m 2/n","Pmmn","2",'P',8},
{59,"D2h^13","P 2bc 2 -1bc","P n m m","P 2/n 2_1/m 2_1/m","Pnmm","1cab",'P',8},
{59,"D2h^13","-P 2c 2bc","P n m m","P 2/n 2_1/m 2_1/m","Pnmm","2cab",'P',8},
{59,"D2h^13","P 2ac 2ac -1ac","P m n m","P 2_1/m 2/n 2_1/m","Pmnm","1bca",'P',8},
{59,"D2h^13","-P 2c 2a","P m n m","P 2_1/m 2/n 2_1/m","Pmnm","2bca",'P',8},
{60,"D2h^14","-P 2n 2ab","P b c n","P 2_1/b 2/c 2_1/n","Pbcn","",'P',8},
{60,"D2h^14","-P 2n 2c","P c a n","P 2/c 2_1/a 2_1/n","Pcan","ba-c",'P',8},
{60,"D2h^14","-P 2a 2n","P n c a","P 2_1/n 2_1/c 2/a","Pnca","cab",'P',8},
{60,"D2h^14","-P 2bc 2n","P n a b","P 2_1/n 2/a 2_1/b","Pnab","-cba",'P',8},
{60,"D2h^14","-P 2ac 2b","P b n a","P 2/b 2_1/n 2_1/a","Pbna","bca",'P',8},
{60,"D2h^14","-P 2b 2ac","P c n b","P 2_1/c 2_1/n 2/b","Pcnb","a-cb",'P',8},
{61,"D2h^15","-P 2ac 2ab","P b c a","P 2_1/b 2_1/c 2_1/a","Pbca","",'P',8},
{61,"D2h^15","-P 2bc 2ac","P c a b","P 2_1/c 2_1/a 2_1/b","Pcab","ba-c",'P',8},
{62,"D2h^16","-P 2ac 2n","P n m a","P 2_1/n 2_1/m 2_1/a","Pnma","",'P',8},
{62,"D2h^16","-P 2bc 2a","P m n b","P 2_1/m 2_1/n 2_1/b","Pmnb","ba-c",'P',8},
{62,"D2h^16","-P 2c 2ab","P b n m","P 2_1/b 2_1/n 2_1/m","Pbnm","cab",'P',8},
{62,"D2h^16","-P 2n 2ac","P c m n","P 2_1/c 2_1/m 2_1/n","Pcmn","-cba",'P',8},
{62,"D2h^16","-P 2n 2a","P m c n","P 2_1/m 2_1/c 2_1/n","Pmcn","bca",'P',8},
{62,"D2h^16","-P 2c 2n","P n a m","P 2_1/n 2_1/a 2_1/m","Pnam","a-cb",'P',8},
{63,"D2h^17","-C 2c 2","C m c m","C 2/m 2/c 2_1/m","Cmcm","",'C',8},
{63,"D2h^17","-C 2c 2c","C c m m","C 2/c 2/m 2_1/m","Ccmm","ba-c",'C',8},
{63,"D2h^17","-A 2a 2a","A m m a","A 2_1/m 2/m 2/a","Amma","cab",'A',8},
{63,"D2h^17","-A 2 2a","A m a m","A 2_1/m 2/a 2/m","Amam","-cba",'A',8},
{63,"D2h^17","-B 2 2b","B b m m","B 2/b 2_1/m 2/m","Bbmm","bca",'B',8},
{63,"D2h^17","-B 2b 2","B m m b","B 2/m 2_1/m 2/b","Bmmb","a-cb",'B',8},
{64,"D2h^18","-C 2bc 2","C m c e","C 2/m 2/c 2_1/e","Cmce","",'C',8},
{64,"D2h^18","-C 2bc 2bc","C c m e","C 2/c 2/m 2_1/e","Ccme","ba-c",'C',8},
{64,"D2h^18","-A 2ac 2ac","A e m a","A 2_1/e 2/m 2/a","Aema","cab",'A',8},
{64,"D2h^18","-A 2 2ac","A e a m","A 2_1/e 2/a 2/m","Aeam","-cba",'A',8},
{64,"D2h^18","-B 2 2bc","B b e m","B 2/b 2_1/e 2/m","Bbem","bca",'B',8},
{64,"D2h^18","-B 2bc 2","B m e b","B 2/m 2_1/e 2/b","Bmeb","a-cb",'B',8},
{65,"D2h^19","-C 2 2","C m m m","C 2/m 2/m 2/m","Cmmm","",'C',8},
{65,"D2h^19","-A 2 2","A m m m","A 2/m 2/m 2/m","Ammm","cab",'A',8},
{65,"D2h^19","-B 2 2","B m m m","B 2/m 2/m 2/m","Bmmm","bca",'B',8},
{66,"D2h^20","-C 2 2c","C c c m","C 2/c 2/c 2/m","Cccm","",'C',8},
{66,"D2h^20","-A 2a 2","A m a a","A 2/m 2/a 2/a","Amaa","cab",'A',8},
{66,"D2h^20","-B 2b 2b","B b m b","B 2/b 2/m 2/b","Bbmb","bca",'B',8},
{67,"D2h^21","-C 2b 2","C m m e","C 2/m 2/m 2/e","Cmme","",'C',8},
{67,"D2h^21","-C 2b 2b","C m m e","C 2/m 2/m 2/e","Cmme","ba-c",'C',8},
{67,"D2h^21","-A 2c 2c","A e m m","A 2/e 2/m 2/m","Aemm","cab",'A',8},
{67,"D2h^21","-A 2 2c","A e m m","A 2/e 2/m 2/m","Aemm","-cba",'A',8},
{67,"D2h^21","-B 2 2c","B m e m","B 2/m 2/e 2/m","Bmem","bca",'B',8},
{67,"D2h^21","-B 2c 2","B m e m","B 2/m 2/e 2/m","Bmem","a-cb",'B',8},
{68,"D2h^22","C 2 2 -1bc","C c c e","C 2/c 2/c 2/e","Ccce","1",'C',8},
{68,"D2h^22","-C 2b 2bc","C c c e","C 2/c 2/c 2/e","Ccce","2",'C',8},
{68,"D2h^22","C 2 2 -1bc","C c c e","C 2/c 2/c 2/e","Ccce","1ba-c",'C',8},
{68,"D2h^22","-C 2b 2c","C c c e","C 2/c 2/c 2/e","Ccce","2ba-c",'C',8},
{68,"D2h^22","A 2 2 -1ac","A e a a","A 2/e 2/a 2/a","Aeaa","1cab",'A',8},
{68,"D2h^22","-A 2a 2c","A e a a","A 2/e 2/a 2/a","Aeaa","2cab",'A',8},
{68,"D2h^22","A 2 2 -1ac","A e a a","A 2/e 2/a 2/a","Aeaa","1-cba",'A',8},
{68,"D2h^22","-A 2ac 2c","A e a a","A 2/e 2/a 2/a","Aeaa","2-cba",'A',8},
{68,"D2h^22","B 2 2 -1bc","B b e b","B 2/b 2/e 2/b","Bbeb","1bca",'B',8},
{68,"D2h^22","-B 2bc 2b","B b c b","B 2/b 2/e 2/b","Bbcb","2bca",'B',8},
{68,"D2h^22","B 2 2 -1bc","B b e b","B 2/b 2/e 2/b","Bbeb","1a-cb",'B',8},
{68,"D2h^22","-B 2b 2bc","B b e b","B 2/b 2/e 2/b","Bbeb","2a-cb",'B',8},
{69,"D2h^23","-F 2 2","F m m m","F 2/m 2/m 2/m","Fmmm","",'F',8},
{70,"D2h^24","F 2 2 -1d","F d d d","F 2/d 2/d 2/d","Fddd","1",'F',8},
{70,"D2h^24","-F 2uv 2vw","F d d d","F 2/d 2/d 2/d","Fddd","2",'F',8},
{71,"D2h^25","-I 2 2","I m m m","I 2/m 2/m 2/m","Immm","",'I',8},
{72,"D2h^26","-I 2 2c","I b a m","I 2/b 2/a 2/m","Ibam","",'I',8},
{72,"D2h^26","-I 2a 2","I m c b","I 2/m 2/c 2/b","Imcb","cab",'I',8},
{72,"D2h^26","-I 2b 2b","I c m a","I 2/c 2/m 2/a","Icma","bca",'I',8},
{73,"D2h^27","-I 2b 2c","I b c a","I 2/b 2/c 2/a","Ibca","",'I',8},
{73,"D2h^27","-I 2a 2b","I c a b","I 2/c 2/a 2/b","Icab","ba-c",'I',8},
{74,"D2h^28","-I 2b 2","I m m a","I 2/m 2/m 2/a","Imma","",'I',8},
{74,"D2h^28","-I 2a 2a","I m m b","I 2/m 2/m 2/b","Immb","ba-c",'I',8},
{74,"D2h^28","-I 2c 2c","I b m m","I 2/b 2/m 2/m","Ibmm","cab",'I',8},
{74,"D2h^28","-I 2 2b","I c m m","I 2/c 2/m 2/m","Icmm","-cba",'I',8},
{74,"D2h^28","-I 2 2a","I m c m","I 2/m 2/c 2/m","Imcm","bca",'I',8},
{74,"D2h^28","-I 2c 2","I m a m","I 2/m 2/a 2/m","Imam","a-cb",'I',8},
{75,"C4^1","P 4","P 4","P 4","P4","",'P',9},
{76,"C4^2","P 4w","P 4_1","P 4_1","P4_1","",'P',9},
{77,"C4^3","P 4c","P 4_2","P 4_2","P4_2","",'P',9},
{78,"C4^4","P 4cw","P 4_3","P 4_3","P4_3","",'P',9},
{79,"C4^5","I 4","I 4","I 4","I4","",'I',9},
{80,"C4^6","I 4bw","I 4_1","I 4_1","I4_1","",'I',9},
{81,"S4^1","P -4","P -4","P -4","P-4","",'P',10},
{82,"S4^2","I -4","I -4","I -4","I-4","",'I',10},
{83,"C4h^1","-P 4","P 4/m","P 4/m","P4/m","",'P',11},
{84,"C4h^2","-P 4c","P 4_2/m","P 4_2/m","P4_2/m","",'P',11},
{85,"C4h^3","P 4ab -1ab","P 4/n","P 4/n","P4/n","1",'P',11},
{85,"C4h^3","-P 4a","P 4/n","P 4/n","P4/n","2",'P',11},
{86,"C4h^4","P 4n -1n","P 4_2/n","P 4_2/n","P4_2/n","1",'P',11},
{86,"C4h^4","-P 4bc","P 4_2/n","P 4_2/n","P4_2/n","2",'P',11},
{87,"C4h^5","-I 4","I 4/m","I 4/m","I4/m","",'I',11},
{88,"C4h^6","I 4bw -1bw","I 4_1/a","I 4_1/a","I4_1/a","1",'I',11},
{88,"C4h^6","-I 4ad","I 4_1/a","I 4_1/a","I4_1/a","2",'I',11},
{89,"D4^1","P 4 2","P 4 2 2","P 4 2 2","P422","",'P',12},
{90,"D4^2","P 4ab 2ab","P 4 2_1 2","P 4 2_1 2","P42_12","",'P',12},
{91,"D4^3","P 4w 2c","P 4_1 2 2","P 4_1 2 2","P4_122","",'P',12},
{92,"D4^4","P 4abw 2nw","P 4_1 2_1 2","P 4_1 2_1 2","P4_12_12","",'P',12},
{93,"D4^5","P 4c 2","P 4_2 2 2","P 4_2 2 2","P4_222","",'P',12},
{94,"D4^6","P 4n 2n","P 4_2 2_1 2","P 4_2 2_1 2","P4_22_12","",'P',12},
{95,"D4^7","P 4cw 2c","P 4_3 2 2","P 4_3 2 2","P4_322","",'P',12},
{96,"D4^8","P 4nw 2abw","P 4_3 2_1 2","P 4_3 2_1 2","P4_32_12","",'P',12},
{97,"D4^9","I 4 2","I 4 2 2","I 4 2 2","I422","",'I',12},
{98,"D4^10","I 4bw 2bw","I 4_1 2 2","I 4_1 2 2","I4_122","",'I',12},
{99,"C4v^1","P 4 -2","P 4 m m","P 4 m m","P4mm","",'P',13},
{100,"C4v^2","P 4 -2ab","P 4 b m","P 4 b m","P4bm","",'P',13},
{101,"C4v^3","P 4c -2c","P 4_2 c m","P 4_2 c m","P4_2cm","",'P',13},
{102,"C4v^4","P 4n -2n","P 4_2 n m","P 4_2 n m","P4_2nm","",'P',13},
{103,"C4v^5","P 4 -2c","P 4 c c","P 4 c c","P4cc","",'P',13},
{104,"C4v^6","P 4 -2n","P 4 n c","P 4 n c","P4nc","",'P',13},
{105,"C4v^7","P 4c -2","P 4_2 m c","P 4_2 m c","P4_2mc","",'P',13},
{106,"C4v^8","P 4c -2ab","P 4_2 b c","P 4_2 b c","P4_2bc","",'P',13},
{107,"C4v^9","I 4 -2","I 4 m m","I 4 m m","I4mm","",'I',13},
{108,"C4v^10","I 4 -2c","I 4 c m","I 4 c m","I4cm","",'I',13},
{109,"C4v^11","I 4bw -2","I 4_1 m d","I 4_1 m d","I4_1md","",'I',13},
{110,"C4v^12","I 4bw -2c","I 4_1 c d","I 4_1 c d","I4_1cd","",'I',13},
{111,"D2d^1","P -4 2","P -4 2 m","P -4 2 m","P-42m","",'P',14},
{112,"D2d^2","P -4 2c","P -4 2 c","P -4 2 c","P-42c","",'P',14},
{113,"D2d^3","P -4 2ab","P -4 2_1 m","P -4 2_1 m","P-42_1m","",'P',14},
{114,"D2d^4","P -4 2n","P -4 2_1 c","P -4 2_1 c","P-42_1c","",'P',14},
{115,"D2d^5","P -4 -2","P -4 m 2","P -4 m 2","P-4m2","",'P',14},
{116,"D2d^6","P -4 -2c","P -4 c 2","P -4 c 2","P-4c2","",'P',14},
{117,"D2d^7","P -4 -2ab","P -4 b 2","P -4 b 2","P-4b2","",'P',14},
{118,"D2d^8","P -4 -2n","P -4 n 2","P -4 n 2","P-4n2","",'P',14},
{119,"D2d^9","I -4 -2","I -4 m 2","I -4 m 2","I-4m2","",'I',14},
{120,"D2d^10","I -4 -2c","I -4 c 2","I -4 c 2","I-4c2","",'I',14},
{121,"D2d^11","I -4 2","I -4 2 m","I -4 2 m","I-42m","",'I',14},
{122,"D2d^12","I -4 2bw","I -4 2 d","I -4 2 d","I-42d","",'I',14},
{123,"D4h^1","-P 4 2","P 4/m m m","P 4/m 2/m 2/m","P4/mmm","",'P',15},
{124,"D4h^2","-P 4 2c","P 4/m c c","P 4/m 2/c 2/c","P4/mcc","",'P',15},
{125,"D4h^3","P 4 2 -1ab","P 4/n b m","P 4/n 2/b 2/m","P4/nbm","1",'P',15},
{125,"D4h^3","-P 4a 2b","P 4/n b m","P 4/n 2/b 2/m","P4/nbm","2",'P',15},
{126,"D4h^4","P 4 2 -1n","P 4/n n c","P 4/n 2/n 2/c","P4/nnc","1",'P',15},
{126,"D4h^4","-P 4a 2bc","P 4/n n c","P 4/n 2/n 2/c","P4/nnc","2",'P',15},
{127,"D4h^5","-P 4 2ab","P 4/m b m","P 4/m 2_1/b m","P4/mbm","",'P',15},
{128,"D4h^6","-P 4 2n","P 4/m n c","P 4/m 2_1/n c","P4/mnc","",'P',15},
{129,"D4h^7","P 4ab 2ab -1ab","P 4/n m m","P 4/n 2_1/m m","P4/nmm","1",'P',15},
{129,"D4h^7","-P 4a 2a","P 4/n m m","P 4/n 2_1/m m","P4/nmm","2",'P',15},
{130,"D4h^8","P 4ab 2n -1ab","P 4/n c c","P 4/n 2_1/c c","P4/ncc","1",'P',15},
{130,"D4h^8","-P 4a 2ac","P 4/n c c","P 4/n 2_1/c c","P4/ncc","2",'P',15},
{131,"D4h^9","-P 4c 2","P 4_2/m m c","P 4_2/m 2/m 2/c","P4_2/mmc","",'P',15},
{132,"D4h^10","-P 4c 2c","P 4_2/m c m","P 4_2/m 2/c 2/m","P4_2/mcm","",'P',15},
{133,"D4h^11","P 4n 2c -1n","P 4_2/n b c","P 4_2/n 2/b 2/c","P4_2/nbc","1",'P',15},
{133,"D4h^11","-P 4ac 2b","P 4_2/n b c","P 4_2/n 2/b 2/c","P4_2/nbc","2",'P',15},
{134,"D4h^12","P 4n 2 -1n","P 4_2/n n m","P 4_2/n 2/n 2/m","P4_2/nnm","1",'P',15},
{134,"D4h^12","-P 4ac 2bc","P 4_2/n n m","P 4_2/n 2/n 2/m","P4_2/nnm","2",'P',15},
{135,"D4h^13","-P 4c 2ab","P 4_2/m b c","P 4_2/m 2_1/b 2/c","P4_2/mbc","",'P',15},
{136,"D4h^14","-P 4n 2n","P 4_2/m n m","P 4_2/m 2_1/n 2/m","P4_2/mnm","",'P',15},
{137,"D4h^15","P 4n 2n -1n","P 4_2/n m c","P 4_2/n 2_1/m 2/c","P4_2/nmc","1",'P',15},
{137,"D4h^15","-P 4ac 2a","P 4_2/n m c","P 4_2/n 2_1/m 2/c","P4_2/nmc","2",'P',15},
{138,"D4h^16","P 4n 2ab -1n","P 4_2/n c m","P 4_2/n 2_1/c 2/m","P4_2/ncm","1",'P',15},
{138,"D4h^16","-P 4ac 2ac","P 4_2/n c m","P 4_2/n 2_1/c 2/m","P4_2/ncm","2",'P',15},
{139,"D4h^17","-I 4 2","I 4/m m m","I 4/m 2/m 2/m","I4/mmm","",'I',15},
{140,"D4h^18","-I 4 2c","I 4/m c m","I 4/m 2/c 2/m","I4/mcm","",'I',15},
{141,"D4h^19","I 4bw 2bw -1bw","I 4_1/a m d","I 4_1/a 2/m 2/d","I4_1/amd","1",'I',15},
{141,"D4h^19","-I 4bd 2","I 4_1/a m d","I 4_1/a 2/m 2/d","I4_1/amd","2",'I',15},
{142,"D4h^20","I 4bw 2aw -1bw","I 4_1/a c d","I 4_1/a 2/c 2/d","I4_1/acd","1",'I',15},
{142,"D4h^20","-I 4bd 2c","I 4_1/a c d","I 4_1/a 2/c 2/d","I4_1/acd","2",'I',15},
{143,"C3^1","P 3","P 3","P 3","P3","",'P',16},
{144,"C3^2","P 31","P 3_1","P 3_1","P3_1","",'P',16},
{145,"C3^3","P 32","P 3_2","P 3_2","P3_2","",'P',16},
{146,"C3^4","R 3","R 3","R 3","R3","H",'R',16},
{146,"C3^4","P 3*","R 3","R 3","R3","R",'P',16},
{147,"C3i^1","-P 3","P -3","P -3","P-3","",'P',17},
{148,"C3i^2","-R 3","R -3","R -3","R-3","H",'R',17},
{148,"C3i^2","-P 3*","R -3","R -3","R-3","R",'P',17},
{149,"D3^1","P 3 2","P 3 1 2","P 3 1 2","P312","",'P',18},
{150,"D3^2","P 3 2\"","P 3 2 1","P 3 2 1","P321","",'P',18},
{151,"D3^3","P 31 2c (0 0 1)","P 3_1 1 2","P 3_1 1 2","P3_112","",'P',18},
{152,"D3^4","P 31 2\"","P 3_1 2 1","P 3_1 2 1","P3_121","",'P',18},
{153,"D3^5","P 32 2c (0 0 -1)","P 3_2 1 2","P 3_2 1 2","P3_212","",'P',18},
{154,"D3^6","P 32 2\"","P 3_2 2 1","P 3_2 2 1","P3_221","",'P',18},
{155,"D3^7","R 3 2\"","R 3 2","R 3 2","R32","H",'R',18},
{155,"D3^7","P 3* 2","R 3 2","R 3 2","R32","R",'P',18},
{156,"C3v^1","P 3 -2\"","P 3 m 1","P 3 m 1","P3m1","",'P',19},
{157,"C3v^2","P 3 -2","P 3 1 m","P 3 1 m","P31m","",'P',19},
{158,"C3v^3","P 3 -2\"c","P 3 c 1","P 3 c 1","P3c1","",'P',19},
{159,"C3v^4","P 3 -2c","P 3 1 c","P 3 1 c","P31c","",'P',19},
{160,"C3v^5","R 3 -2\"","R 3 m","R 3 m","R3m","H",'R',19},
{160,"C3v^5","P 3* -2","R 3 m","R 3 m","R3m","R",'P',19},
{161,"C3v^6","R 3 -2\"c","R 3 c","R 3 c","R3c","H",'R',19},
{161,"C3v^6","P 3* -2n","R 3 c","R 3 c","R3c","R",'P',19},
{162,"D3d^1","-P 3 2","P -3 1 m","P -3 1 2/m","P-31m","",'P',20},
{163,"D3d^2","-P 3 2c","P -3 1 c","P -3 1 2/c","P-31c","",'P',20},
{164,"D3d^3","-P 3 2\"","P -3 m 1","P -3 2/m 1","P-3m1","",'P',20},
{165,"D3d^4","-P 3 2\"c","P -3 c 1","P -3 2/c 1","P-3c1","",'P',20},
{166,"D3d^5","-R 3 2\"","R -3 m","R -3 2/m","R-3m","H",'R',20},
{166,"D3d^5","-P 3* 2","R -3 m","R -3 2/m","R-3m","R",'P',20},
{167,"D3d^6","-R 3 2\"c","R -3 c","R -3 2/c","R-3c","H",'R',20},
{167,"D3d^6","-P 3* 2n","R -3 c","R -3 2/c","R-3c","R",'P',20},
{168,"C6^1","P 6","P 6","P 6","P6","",'P',21},
{169,"C6^2","P 61","P 6_1","P 6_1","P6_1","",'P',21},
{170,"C6^3","P 65","P 6_5","P 6_5","P6_5","",'P',21},
{171,"C6^4","P 62","P 6_2","P 6_2","P6_2","",'P',21},
{172,"C6^5","P 64","P 6_4","P 6_4","P6_4","",'P',21},
{173,"C6^6","P 6c","P 6_3","P 6_3","P6_3","",'P',21},
{174,"C3h^1","P -6","P -6","P -6","P-6","",'P',22},
{175,"C6h^1","-P 6","P 6/m","P 6/m","P6/m","",'P',23},
{176,"C6h^2","-P 6c","P 6_3/m","P 6_3/m","P6_3/m","",'P',23},
{177,"D6^1","P 6 2","P 6 2 2","P 6 2 2","P622","",'P',24},
{178,"D6^2","P 61 2 (0 0 -1)","P 6_1 2 2","P 6_1 2 2","P6_122","",'P',24},
{179,"D6^3","P 65 2 (0 0 1)","P 6_5 2 2","P 6_5 2 2","P6_522","",'P',24},
{180,"D6^4","P 62 2c (0 0 1)","P 6_2 2 2","P 6_2 2 2","P6_222","",'P',24},
{181,"D6^5","P 64 2c (0 0 -1)","P 6_4 2 2","P 6_4 2 2","P6_422","",'P',24},
{182,"D6^6","P 6c 2c","P 6_3 2 2","P 6_3 2 2","P6_322","",'P',24},
{183,"C6v^1","P 6 -2","P 6 m m","P 6 m m","P6mm","",'P',25},
{184,"C6v^2","P 6 -2c","P 6 c c","P 6 c c","P6cc","",'P',25},
{185,"C6v^3","P 6c -2","P 6_3 c m","P 6_3 c m","P6_3cm","",'P',25},
{186,"C6v^4","P 6c -2c","P 6_3 m c","P 6_3 m c","P6_3mc","",'P',25},
{187,"D3h^1","P -6 2","P -6 m 2","P -6 m 2","P-6m2","",'P',26},
{188,"D3h^2","P -6c 2","P -6 c 2","P -6 c 2","P-6c2","",'P',26},
{189,"D3h^3","P -6 -2","P -6 2 m","P -6 2 m","P-62m","",'P',26},
{190,"D3h^4","P -6c -2c","P -6 2 c","P -6 2 c","P-62c","",'P',26},
{191,"D6h^1","-P 6 2","P 6/m m m","P 6/m 2/m 2/m","P6/mmm","",'P',27},
{192,"D6h^2","-P 6 2c","P 6/m c c","P 6/m 2/c 2/c","P6/mcc","",'P',27},
{193,"D6h^3","-P 6c 2","P 6_3/m c m","P 6_3/m 2/c 2/m","P6_3/mcm","",'P',27},
{194,"D6h^4","-P 6c 2c","P 6_3/m m c","P 6_3/m 2/m 2/c","P6_3/mmc","",'P',27},
{195,"T^1","P 2 2 3","P 2 3","P 2 3","P23","",'P',28},
{196,"T^2","F 2 2 3","F 2 3","F 2 3","F23","",'F',28},
{197,"T^3","I 2 2 3","I 2 3","I 2 3","I23","",'I',28},
{198,"T^4","P 2ac 2ab 3","P 2_1 3","P 2_1 3","P2_13","",'P',28},
{199,"T^5","I 2b 2c 3","I 2_1 3","I 2_1 3","I2_13","",'I',28},
{200,"Th^1","-P 2 2 3","P m -3","P 2/m -3","Pm-3","",'P',29},
{201,"Th^2","P 2 2 3 -1n","P n -3","P 2/n -3","Pn-3","1",'P',29},
{201,"Th^2","-P 2ab 2bc 3","P n -3","P 2/n -3","Pn-3","2",'P',29},
{202,"Th^3","-F 2 2 3","F m -3","F 2/m -3","Fm-3","",'F',29},
{203,"Th^4","F 2 2 3 -1d","F d -3","F 2/d -3","Fd-3","1",'F',29},
{203,"Th^4","-F 2uv 2vw 3","F d -3","F 2/d -3","Fd-3","2",'F',29},
{204,"Th^5","-I 2 2 3","I m -3","I 2/m -3","Im-3","",'I',29},
{205,"Th^6","-P 2ac 2ab 3","P a -3","P 2_1/a -3","Pa-3","",'P',29},
{206,"Th^7","-I 2b 2c 3","I a -3","I 2_1/a -3","Ia-3","",'I',29},
{207,"O^1","P 4 2 3","P 4 3 2","P 4 3 2","P432","",'P',30},
{208,"O^2","P 4n 2 3","P 4_2 3 2","P 4_2 3 2","P4_232","",'P',30},
{209,"O^3","F 4 2 3","F 4 3 2","F 4 3 2","F432","",'F',30},
{210,"O^4","F 4d 2 3","F 4_1 3 2","F 4_1 3 2","F4_132","",'F',30},
{211,"O^5","I 4 2 3","I 4 3 2","I 4 3 2","I432","",'I',30},
{212,"O^6","P 4acd 2ab 3","P 4_3 3 2","P 4_3 3 2","P4_332","",'P',30},
{213,"O^7","P 4bd 2ab 3","P 4_1 3 2","P 4_1 3 2","P4_132","",'P',30},
{214,"O^8","I 4bd 2c 3","I 4_1 3 2","I 4_1 3 2","I4_132","",'I',30},
{215,"Td^1","P -4 2 3","P -4 3 m","P -4 3 m","P-43m","",'P',31},
{216,"Td^2","F -4 2 3","F -4 3 m","F -4 3 m","F-43m","",'F',31},
{217,"Td^3","I -4 2 3","I -4 3 m","I -4 3 m","I-43m","",'I',31},
{218,"Td^4","P -4n 2 3","P -4 3 n","P -4 3 n","P-43n","",'P',31},
{219,"Td^5","F -4c 2 3","F -4 3 c","F -4 3 c","F-43c","",'F',31},
{220,"Td^6","I -4bd 2c 3","I -4 3 d","I -4 3 d","I-43d","",'I',31},
{221,"Oh^1","-P 4 2 3","P m -3 m","P 4/m -3 2/m","Pm-3m","",'P',32},
{222,"Oh^2","P 4 2 3 -1n","P n -3 n","P 4/n -3 2/n","Pn-3n","1",'P',32},
{222,"Oh^2","-P 4a 2bc 3","P n -3 n","P 4/n -3 2/n","Pn-3n","2",'P',32},
{223,"Oh^3","-P 4n 2 3","P m -3 n","P 4_2/m -3 2/n","Pm-3n","",'P',32},
{224,"Oh^4","P 4n 2 3 -1n","P n -3 m","P 4_2/n -3 2/m","Pn-3m","1",'P',32},
{224,"Oh^4","-P 4bc 2bc 3","P n -3 m","P 4_2/n -3 2/m","Pn-3m","2",'P',32},
{225,"Oh^5","-F 4 2 3","F m -3 m","F 4/m -3 2/m","Fm-3m","",'F',32},
{226,"Oh^6","-F 4c 2 3","F m -3 c","F 4/m -3 2/c","Fm-3c","",'F',32},
{227,"Oh^7","F 4d 2 3 -1d","F d -3 m","F 4_1/d -3 2/m","Fd-3m","1",'F',32},
{227,"Oh^7","-F 4vw 2vw 3","F d -3 m","F 4_1/d -3 2/m","Fd-3m","2",'F',32},
{228,"Oh^8","F 4d 2 3 -1cd","F d -3 c","F 4_1/d -3 2/c","Fd-3c","1",'F',32},
{228,"Oh^8","-F 4cvw 2vw 3","F d -3 c","F 4_1/d -3 2/c","Fd-3c","2",'F',32},
{229,"Oh^9","-I 4 2 3","I m -3 m","I 4/m -3 2/m","Im-3m","",'I',32},
{230,"Oh^10","-I 4bd 2c 3","I a -3 d","I 4_1/a -3 2/d","Ia-3d","",'I',32},
};
}
