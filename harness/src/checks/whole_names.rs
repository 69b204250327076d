/// which tasks of the other properties P27 and P28 repeat with compiled proofs, by cost
const WHOLE_QUICK: &[&str] = &[
    "P15 equality honest 1",
    "P15 equality honest 1 kzg",
    "P15 equality honest 2",
    "P15 multi honest 1 | 1",
    "P15 multi honest 1 | 1 kzg",
    "P15 multi honest 1 | 1,2",
    "P15 multi honest 1 | 1,2 kzg",
    "P15 multi honest 2 | 2,2",
    "P15 sum honest 1,0",
    "P15 sum honest 1,0 kzg",
    "P15 sum honest 1,1",
    "P15 sum honest 1,1 kzg",
    "P15 wide equality honest 4",
    "P15 wide multi honest 3 | 3",
    "P15 wide multi honest 3 | 3 kzg",
    "P15 wide multi honest 3 | 3,4,3",
    "P15 wide sum honest 2,3",
    "P15 wide sum honest 2,3 kzg",
    "P15 wide sum honest 3,2",
    "P15 wide sum honest 3,2 kzg",
    "P16 honest 1 in 1",
    "P16 honest 1 in 1 kzg",
    "P16 honest 1 in 2",
    "P16 honest 2 in 1",
    "P16 honest 2 in 1 kzg",
    "P16 wide honest 3 in 3",
    "P17 no zeros honest 2",
    "P17 no zeros honest 2 kzg",
    "P17 selector honest 2",
    "P17 selector honest 2 kzg",
    "P17 selector honest 4",
    "P17 selector honest 4 kzg",
    "P17 wide no zeros honest 4",
    "P17 wide no zeros honest 4 kzg",
    "P17 wide selector honest 5",
    "P17 wide selector honest 5 kzg",
    "P18 honest 1",
    "P18 honest 1 kzg",
    "P18 honest 2",
    "P18 honest 2 kzg",
    "P18 wide honest 3",
    "P18 wide honest 3 kzg",
    "P18 wide honest 4",
    "P19 honest 1 range 2",
    "P19 honest 1 range 2 kzg",
    "P19 honest 2 range 1",
    "P19 honest 2 range 1 kzg",
    "P19 honest 2 range 2",
    "P19 honest 2 range 2 kzg",
    "P19 wide honest 3 range 2",
    "P19 wide honest 3 range 2 kzg",
    "P20 honest 1 supp 1 range 2",
    "P20 honest 1 supp 1 range 2 kzg",
    "P20 honest 2 supp 1 range 1",
    "P20 honest 2 supp 1 range 1 kzg",
    "P20 wide honest 3 supp 3 range 2",
    "P20 wide honest 3 supp 3 range 2 kzg",
    "P21 bags honest 1,1 range 1",
    "P21 bags honest 1,1 range 1 kzg",
    "P21 sets honest 1,1 range 1",
    "P21 sets honest 1,1 range 1 kzg",
    "P22 difference honest 0",
    "P22 difference honest 0 kzg",
    "P22 intersection honest 0",
    "P22 intersection honest 0 kzg",
    "P22 union honest 0,0 in 1",
    "P22 union honest 0,0 in 1 kzg",
    "P22 union honest 1,0 in 1",
    "P22 union honest 1,0 in 1 kzg",
    "P23 join honest 1+2 1x2",
    "P23 join honest 1+2 1x2 kzg",
    "P23 join honest 2+2 1x1",
    "P23 join honest 2+2 1x1 kzg",
    "P23 product 1+1 columns 1x2",
    "P23 product 1+1 columns 1x2 kzg",
    "P23 product 2+1 columns 2x1",
    "P23 product 2+1 columns 2x1 kzg",
    "P23 product 2+3 columns 2x3",
    "P23 product 2+3 columns 2x3 kzg",
    "P23 transform honest 2 columns 1 to 1",
    "P23 transform honest 2 columns 1 to 1 kzg",
    "P23 transform honest 3 columns 1 to 2",
    "P23 wide join honest 2+1 4x2",
    "P23 wide product 3+2 columns 3x4",
    "P25 count honest 1",
    "P25 count honest 1 kzg",
    "P25 sum honest 1",
    "P25 sum honest 1 kzg",
    "P25 sum honest 2",
    "P25 three columns honest 1",
    "P25 three columns honest 1 kzg",
    "P29 honest sequence 0 on 1",
    "P29 honest sequence 0 on 1 kzg",
    "P29 honest sequence 1 on 1",
    "P29 honest sequence 1 on 1 kzg",
    "P29 honest sequence 2 on 1",
    "P29 honest sequence 2 on 1 kzg",
    "P29 honest sequence 3 on 1",
    "P29 honest sequence 3 on 1 kzg",
    "P29 honest sequence 3 on 2",
    "P29 honest sequence 3 on 2 kzg",
    "P29 honest sequence 4 on 1",
    "P29 honest sequence 4 on 1 kzg",
    "P29 honest sequence 4 on 2",
    "P29 honest sequence 4 on 2 kzg",
    "P29 honest sequence 5 on 1",
    "P29 honest sequence 5 on 1 kzg",
    "P29 wide honest sequence 0 on 3",
    "P29 wide honest sequence 2 on 3",
    "P29 wide honest sequence 3 on 3",
    "P29 wide honest sequence 3 on 4",
    "P29 wide honest sequence 4 on 3",
    "P29 wide honest sequence 4 on 4",
    "P29 wide honest sequence 5 on 3",
    "P15 attack equality 1",
    "P15 attack multi 1 | 1",
    "P15 attack sum 1,0,1",
    "P15 attack multi 1 | 0,1",
    "P15 attack multi 1,0 | 1",
    "P15 attack sum 1,1,1",
    "P15 attack row 1 multi 3 | 3",
    "P15 attack row 0 multi 3 | 3",
    "P15 attack row 0 equality 3",
    "P15 attack row 1 equality 3",
    "P16 attack 1 in 1",
    "P16 attack 1 in 1 advice",
    "P16 attack row 0 3 in 3",
    "P16 attack row 1 3 in 3",
    "P16 attack 1 in 2",
    "P16 attack row 2 3 in 3",
    "P16 attack row 3 3 in 3",
    "P16 attack 2 in 1 advice",
    "P16 attack 2 in 1",
    "P16 attack 1 in 2 advice",
    "P17 attack no zeros 1",
    "P17 attack selector 1",
    "P17 attack no zeros 2",
    "P17 attack selector 2",
    "P17 attack selector 3",
    "P18 attack 1",
    "P17 attack no zeros 3",
    "P18 attack 2",
    "P18 attack row 1 3",
    "P18 attack row 0 3",
    "P18 attack row 2 3",
    "P19 attack 1 range 1",
    "P18 attack row 3 3",
    "P19 attack row 0 3",
    "P19 attack 2 range 1",
    "P19 attack row 1 3",
    "P20 attack 1 supp 1 range 2",
    "P21 attack bags 0,0 range 1",
    "P19 attack 2 range 2",
    "P20 attack 1 supp 1 range 1 advice",
    "P21 attack bags 1,0 range 1",
    "P21 attack sets 1,0 range 1",
    "P21 attack sets 0,1 range 1",
    "P21 attack sets 1,1 range 2",
    "P21 attack bags 1,1 range 2",
    "P23 attack transform 2 columns 1 to 1",
    "P23 attack join 2+1 1x0",
    "P23 attack join 2+1 1x1",
    "P22 attack union 0,0 in 1",
    "P22 attack difference 0",
    "P23 attack row 0 transform 3",
    "P23 attack row 0 join 3",
    "P23 attack row 1 join 3",
    "P23 attack row 2 join 3",
    "P23 attack row 3 join 3",
    "P23 attack row 1 transform 3",
    "P25 attack count 1",
    "P29 attack sequence 0 on 1",
    "P29 attack sequence 1 on 1",
    "P29 attack sequence 2 on 1",
    "P15 attack multi 1 | 1 kzg",
    "P29 attack sequence 5 on 1",
    "P15 attack equality 1 kzg",
    "P15 attack sum 1,0,1 kzg",
    "P15 attack multi 1 | 0,1 kzg",
    "P15 attack multi 1,0 | 1 kzg",
    "P15 attack row 0 equality 3 kzg",
    "P15 attack row 1 equality 3 kzg",
    "P16 attack 1 in 1 kzg",
    "P16 attack 1 in 1 advice kzg",
    "P16 attack row 0 3 in 3 kzg",
    "P16 attack row 1 3 in 3 kzg",
    "P16 attack row 2 3 in 3 kzg",
    "P16 attack row 3 3 in 3 kzg",
    "P17 attack no zeros 1 kzg",
    "P17 attack selector 1 kzg",
    "P17 attack no zeros 2 kzg",
    "P17 attack selector 2 kzg",
    "P18 attack 1 kzg",
    "P18 attack row 0 3 kzg",
    "P18 attack row 1 3 kzg",
    "P18 attack 2 kzg",
    "P18 attack row 2 3 kzg",
    "P19 attack 1 range 1 kzg",
    "P18 attack row 3 3 kzg",
    "P17 attack selector 3 kzg",
    "P19 attack row 0 3 kzg",
    "P19 attack 2 range 1 kzg",
    "P19 attack row 1 3 kzg",
    "P21 attack bags 0,0 range 1 kzg",
    "P21 attack bags 1,0 range 1 kzg",
    "P23 attack transform 2 columns 1 to 1 kzg",
    "P23 attack join 2+1 1x0 kzg",
    "P23 attack join 2+1 1x1 kzg",
    "P23 attack row 0 join 3 kzg",
    "P23 attack row 1 join 3 kzg",
    "P29 attack sequence 1 on 1 kzg",
    "P29 attack sequence 2 on 1 kzg",
    "P29 attack sequence 5 on 1 kzg",
    "P24 attack few 0,0 range 1",
    "P22 attack few intersection 0",
    "P22 attack few union 1,0 in 1",
];
const WHOLE_THOROUGH: &[&str] = &[
    "P15 equality honest 2 kzg",
    "P15 wide multi honest 3 | 3,4,3 kzg",
    "P16 honest 1 in 2 kzg",
    "P16 wide honest 2 in 4",
    "P16 wide honest 3 in 3 kzg",
    "P20 row 5 honest 3 supp 3 range 5",
    "P20 row 6 honest 3 supp 3 range 5",
    "P20 row 7 honest 3 supp 3 range 5",
    "P20 wide honest 4 supp 3 range 3",
    "P21 bags honest 1,0 range 2",
    "P23 transform honest 3 columns 1 to 2 kzg",
    "P23 wide join honest 3+2 3x3",
    "P25 sum honest 2 kzg",
    "P25 wide sum honest 3",
    "P29 honest sequence 0 on 2",
    "P29 wide honest sequence 0 on 4",
    "P29 wide honest sequence 1 on 3",
    "P29 wide honest sequence 5 on 4",
    "P15 attack row 2 multi 3 | 3",
    "P15 attack row 3 multi 3 | 3",
    "P15 attack row 2 equality 3",
    "P15 attack row 3 equality 3",
    "P19 attack row 2 3",
    "P19 attack row 3 3",
    "P23 attack row 2 transform 3",
    "P23 attack row 3 transform 3",
    "P15 attack sum 1,1,1 kzg",
    "P15 attack row 0 multi 3 | 3 kzg",
    "P15 attack row 2 equality 3 kzg",
    "P15 attack row 1 multi 3 | 3 kzg",
    "P15 attack row 3 multi 3 | 3 kzg",
    "P15 attack row 2 multi 3 | 3 kzg",
    "P15 attack row 3 equality 3 kzg",
    "P16 attack 1 in 2 kzg",
    "P16 attack 2 in 1 advice kzg",
    "P16 attack 2 in 1 kzg",
    "P16 attack 1 in 2 advice kzg",
    "P19 attack row 2 3 kzg",
    "P19 attack row 3 3 kzg",
    "P20 attack 1 supp 1 range 2 kzg",
    "P19 attack 2 range 2 kzg",
    "P20 attack 1 supp 1 range 1 advice kzg",
    "P21 attack sets 1,0 range 1 kzg",
    "P21 attack sets 0,1 range 1 kzg",
    "P21 attack bags 1,1 range 2 kzg",
    "P21 attack sets 1,1 range 2 kzg",
    "P22 attack difference 0 kzg",
    "P22 attack union 0,0 in 1 kzg",
    "P23 attack row 0 transform 3 kzg",
    "P23 attack row 2 join 3 kzg",
    "P23 attack row 3 join 3 kzg",
    "P23 attack row 1 transform 3 kzg",
    "P23 attack row 2 transform 3 kzg",
    "P23 attack row 3 transform 3 kzg",
    "P25 attack count 1 kzg",
    "P29 attack sequence 0 on 1 kzg",
];
