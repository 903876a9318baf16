package main

const refEHex = "108c19d15f9446f744d0f110405d3856d6cc3bda6c4d537663729f52576284170dc26f240656bbe2029bd441d77c221f0ba4c70c94b29b5f17f0f6d08745a069279db296f9d479292532c7c493d8e0722b6efae42158387564889c79fc038ee31ad9db1937fd72f4ac462173d31d3d6117411fa48dba8d499d762b47edb3b54a27ed208e7a0b55ae6e710bbfbd2fd922669c026360e37cc5b2ab8624115361042c53748bcd21a7c038fb30ddc8ac3bf0af25d7859cfbc12c30c866276c5659092b03614464f04dd772d86df88674c270ffc8747ea13e72da95e3594468f222c401676555de427abc409c4a394bc5426886302996919d4bf4bdd02236e14b36362067586885c3318eeffa1938c754fe3c60224ee5ae15e66af6b5104c47c8c5d80e841c2ac18a4003ac9326b9558380e0bc27fdd375e3605f96b819a358d34bde084f330485b09e866bc2f2ea2b897394deaf3f12aa31f28cb0552990967d470412c70e90e12b7874510cd1707e8856f71bf7f61d72631e268fca81000db9a1f5"
