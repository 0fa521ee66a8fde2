// Code points assigned after Unicode 12 that the running Node already knows (general category other than C).
export const LATER = '61d 870-88f 897-89f 8b5 8be-8d2 b55 c3c c5c-c5d cdc-cdd cf3 d04 d81 ece 170d 1715 171f 180f 1abf-1add 1ae0-1aeb 1b4c 1b4e-1b4f 1b7d-1b7f 1c89-1c8a 1dfa 20c0-20c1 2427-2429 2b96-2b97 2c2f 2c5f 2e50-2e5d 2ffc-2fff 31bb-31bf 31e4-31e5 31ef 4db6-4dbf 9ff0-9fff a7c0-a7c1 a7c7-a7dc a7f1-a7f6 a82c ab68-ab6b fbc2-fbd2 fd40-fd4f fd90-fd91 fdc8-fdcf fdfe-fdff 1019c 10570-1057a 1057c-1058a 1058c-10592 10594-10595 10597-105a1 105a3-105b1 105b3-105b9 105bb-105bc 105c0-105f3 10780-10785 10787-107b0 107b2-107ba 10940-10959 10d40-10d65 10d69-10d85 10d8e-10d8f 10e80-10ea9 10eab-10ead 10eb0-10eb1 10ec2-10ec7 10ed0-10ed8 10efa-10eff 10f70-10f89 10fb0-10fcb 11070-11075 110c2 11147 111ce-111cf 1123f-11241 11380-11389 1138b 1138e 11390-113b5 113b7-113c0 113c2 113c5 113c7-113ca 113cc-113d5 113d7-113d8 113e1-113e2 1145a 11460-11461 116b9 116d0-116e3 11740-11746 11900-11906 11909 1190c-11913 11915-11916 11918-11935 11937-11938 1193b-11946 11950-11959 11ab0-11abf 11b00-11b09 11b60-11b67 11bc0-11be1 11bf0-11bf9 11db0-11ddb 11de0-11de9 11f00-11f10 11f12-11f3a 11f3e-11f5a 11fb0 12f90-12ff2 1342f 13440-13455 13460-143fa 16100-16139 16a70-16abe 16ac0-16ac9 16d40-16d79 16ea0-16eb8 16ebb-16ed3 16fe4 16ff0-16ff6 187f8-187ff 18af3-18cd5 18cff-18d1e 18d80-18df2 1aff0-1aff3 1aff5-1affb 1affd-1affe 1b11f-1b122 1b132 1b155 1cc00-1ccfc 1cd00-1ceb3 1ceba-1ced0 1cee0-1cef0 1cf00-1cf2d 1cf30-1cf46 1cf50-1cfc3 1d1e9-1d1ea 1d2c0-1d2d3 1df00-1df1e 1df25-1df2a 1e030-1e06d 1e08f 1e290-1e2ae 1e4d0-1e4f9 1e5d0-1e5fa 1e5ff 1e6c0-1e6de 1e6e0-1e6f5 1e6fe-1e6ff 1e7e0-1e7e6 1e7e8-1e7eb 1e7ed-1e7ee 1e7f0-1e7fe 1f10d-1f10f 1f16d-1f16f 1f1ad 1f6d6-1f6d8 1f6dc-1f6df 1f6fb-1f6fc 1f774-1f77f 1f7d9 1f7f0 1f8b0-1f8bb 1f8c0-1f8c1 1f8d0-1f8d8 1f90c 1f972 1f977-1f979 1f9a3-1f9a4 1f9ab-1f9ad 1f9cb-1f9cc 1fa54-1fa57 1fa74-1fa77 1fa7b-1fa7c 1fa83-1fa8a 1fa8e-1fa8f 1fa96-1fac6 1fac8 1facd-1fadc 1fadf-1faea 1faef-1faf8 1fb00-1fb92 1fb94-1fbfa 2a6d7-2a6df 2b735-2b73f 2cea2-2cead 2ebf0-2ee5d 30000-3134a 31350-33479'.split(' ').map(t => t.split('-').map(h => parseInt(h, 16)));
