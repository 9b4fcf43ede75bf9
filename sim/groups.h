// Written by tools/mkgroups.py.
#pragma once
struct FGroup { int pbits, qbits; const char *p, *q, *g; };
static const FGroup fgroups[] = {
  {512, 160, "8f15d8bbc09ee1dd0a07f4b6b6e81712817ac4197fac0d07835b1bd36a76bee4dfc1cbef447e004c498ba64e89cc019e1f87ae01cb01d24595662bf4293202c7",
   "c0c58b8c3a27cceb7bf464dd74612510418466b5",
   "72acd51eebc05abcfc805dbb4bdcff981e07a145b77a52f8f878cf3213fb9df0568963bdcb34adf39e870b8f1d9fb03706eeaec552b836ff24373836d68de04e"},
  {512, 160, "ec6ba35f365e27831eec6de62017b5bbf6d573141e31d775ac8dad477147a20137cfbf6952b87d51eb515670af4f37e49e1f9b3b82b0c7b0dc0d8e149050ef8b",
   "c49573c7bf53f5800406bae4e8f283f381c566d9",
   "182166eda3ad19187c50f86954ab0e85261561f1114ea1b9b349c8efd22f7e06196e5877efa30003dbd49d3d108b6bb9902950fe0916cb3b418eba820b6811db"},
  {520, 224, "9292a460d2e9304893c1f378266c67225dc2f8c7c47a42c09892d62a04ce5f16cc07025b1b631938ad7f8b7a289f8405e3324347314b7f6f8be6648d85dadb6361",
   "ae91e624df66db6af6d185efa0a9a5536053d4217325ac909a8493b7",
   "8699cbbc5952181e32e775c9a99e5c7f3fdf1c717e7434cc04969c44d8f675f2eca00c220eabc18bda16668422bb345179c1f9b7291f9d053c6786efcb22be926d"},
  {512, 256, "ee27c6601fdae3f8886b818973f893a31fead0df67d327f38a4453c3858611b6384b67310c328faa8e03d169fdfa1373cff784f116bee879a1006a061b52601f",
   "dc1937ff3afa01e34909f46ef08f1edc4a52e8c1602572f9fcf54e3cdcaaba0b",
   "21f14d5860716812208ecc249bc825ed5d266057ea737687c44f5d58ce9fd98eee8dc1d18aa241c180f63900f61246ccee9191217c02ea98ff12f31ab0af53c0"},
  {1000, 160, "8476bdce837b3cdb85899ca086132e75083de0626a16e746dba9f66c3e71075bf148d66bdd23dc81cc9e840bca9f47e4c83f4e701c354c01a2a110fcd34c0a02767e40163ea50eda01568a9990499bdd9d786bea4b71f1b07a3aa585af0a16cd170f7765c289fccfc63b542e9b3c049abd9d47d8d5d75874470a48bd0b",
   "f69f9e03dc01a876a8308d9ac0fd187e6ed4c833",
   "78a320defe5989d60c439b133f93b5b3cb970605e052b6203b349ad43516103808bef8a3d5382ec62b754ff55ae700a4315e0eda25649fe20879ce9624a609e726543179cd42ea45434ce1b85b43cd656a48600e31a4674ad419463f3c7a745adf719261ee78bb45ae35e6b6a498b4fa364ebb9b4ab449c5707c0d808"},
  {1024, 160, "be118ebb1f5c6811fecaa10a52608c6ec478572a625fb57b80a8615d6d5b8d932cae8bf662e3344fe894dbc9d48afffe4f0a3faf54d9542107af59a17aef1e383ab7dc79e1e08b856bd7cdb68493eaf31dce203cabdc933b3b07d2898b78280b9a489b88974e4aae8efc211114ad097b5058b7e15f09df350064e5b6854b8949",
   "f1c16fe8f113e47a450779b33728a38f0246de0d",
   "688a3f98a6eaee01a6f66870cbae2ace59ba37c11dc22861021fc5bd9a46480d3353326fff54cc6a05eb79bf4ab91696ea4dc87e8b01a7b18ca0d926304f2be9e7cd81b81c6dc8dc4c77c3100b6e564d9707d807f91401fdbf66c23b471903b347a5a9d88b528bc915044b23294d53ce3741d15a86d23dc061ad0a18ce20301b"},
  {1024, 224, "ba24cedd6da539cecbaee6380482953a29de1906cf0569dc0a54de1bee069810e4395effa0eb98b63308d03c286b1c0d09ca92e188751a2783a76e80cce032a06034892e993f359a0810b6052f580c5a8f0ebfc58e70e8d9b06fcd86f3b658adde34c8f73b01dec20fbdbbc72e8a53b46593131eab54f061f13131f50d18104f",
   "9da07faeff235cd6477b5085bb9f8e36ce7a8e82d6652f71de774f8b",
   "9d5fa6c28ed6996a9eafea84dd1997162b5c8589f17ff77f2a1120c9a0fb4e4c5f4a08567336aca2de4ddf33227e82631e0abfdba1dacab37b8dd80f01d8bd25f8635023cb2927a361356fada8c0d4ac3e9d5ede5e28b1e7a709387e454f48122172a3383814fb809b8326c99622dfcf4d7b901ceadcbbaad8f6d74667cf612e"},
  {1537, 256, "1e2e3684bfd6f7a11a28b2d31108597d246bd38bcd8b15eeba21b57ca596b364262393dc742fd73812ca8a170707189745eb21bcafcb4ed83aec08af74c597356cb0c7d58cd2c140386efcac33b8ee60ff4e90167fdf4e1cc014430b2833b508c293e26405c736ce200695655ea7668fa2bd171f2507a2ffeadd93895f454cbe3d23bcc2e593cfa0c072a35b5359c8cd3b91df1b5f68e113745cd756c4bc6d1eebc17553e5bb2c75e84e1e95ac02fc6b6469a09c0d8c79cc7afab100e7e295cb1",
   "e30bf531b994073369052108c8440ce708dbd21e462d85b5d423da1e79941d85",
   "149a5aebec35e24a678ff3752dacafd49168aa472c11e24e7524ff0399be908f4289c5b4da0b0cf5d2ce18be01ae911577a24cbdab0f56a5355a165b088a27e1761cd5100b9622fa5f358d06d43cb8af86a0f6f9d7cdf82fb0d5e7b474f931408919c4b5b636a3477b1111885510760ee00de470236bb6b3d6c1bfdc115b0106d3ce0a76c1d8fcfd49368ccc15f47347150f35b2ecd7cc73770a660fc8c95bbb6a9ec2195c47bbab2f6e481177aa4d77df995a67eea870e574e303652e9410be8"},
  {2048, 224, "e0502b0fccf655fb2a73b9e269475f406ec3d71d78c729a107de237e9b1ade4b65a99f2dab51874a03bd8f5c3b96b9baa81bc267e5935c461094a9b8cc8000e76113fa33852c8713238b2e46a835179389c3273d82ce48e94e8ffa88c51dd5eac48c0e5dc9f477904a7ccf344997430db8dac03aa6b7dd9b2cfb033c459dec912f74c069bcb8213c9a7ab715ca339f5d4b1e47a68f9759b185d5b208b17cda1ab1a71f66fbfa7d8b6e7bd313ada8eabe05e4eefb099c89622f4ca0f6d010651e012fb6f6b9d32d2ebe70eeb81cd6f307c89757c14235d0928a4f86000662901325821dccf03db9a9cf330dbae02dd4b0383ad7feb78e3fd6741681fe8e7c8b0f",
   "b3ba033bce701d56f2a50475c8250ec90f1e8701a4827537f5c7fa51",
   "5ae3eece102d44ca9bdfa58ee0b84ee05d1b263bb465a1bee148f1a73f6a9e20c26bfdda69c4d5c2231727cb20155ab8613732e42d424c8a10fd4c0bc2f9e9b029db43f1e83189639a178aad81945c8d99dbf23ba38abd0179de77e9977a61cf860c4893b52b294d3eea9a9f639070a856548fca097f27517ed140a69a457b285bc935536ed3d5250f4f265099017c338a55ad979ad20ded05a59b4fc14d1cc51befc4d0a6f46779d42654dba5ab701a7bd5b9c7bfb78cac231ca2b382b1c84ebf8cdc41db318aa4d71d8c28826e8b6c60f3c617142c2ef9245263f3a6864c8317eb23edec34d4dc0bcb3c108644e4dd1f7d9e5b9b09f27c5a997d0a3612c6b7"},
  {2048, 256, "8ae33193664acd640714d1795dc4df82e8e28aba8896b9bbe503e3c6823042ee07a2085602211bb23ba54fcec3c8b8af4dd24705a10ea37dc51172a3e8696d3f4f996248a28d9d49ddfc123c21fb14581230ea90ca60e594eafff41d354190349857ced0449d8bbb2ad5c7a99f3f6b50b1d13867ae96080466ab7cd396ad767de5f8978b7fbec3bab869e98af96d881667b5395f8006fbd01a6e4571db178ce6d9e71e9d4fe078870ab5e51f7dd02ec8a1c49b7586c1ace837664bda694fa5796b19c519e255ddd935ee68c4eec4e8a4d81f410e3a781bea980ea8c475c629bfa3c5c071a54eb471b07d4c6577d99b834547bac9b5eb34e7e8372e89e60a7fe1",
   "b0539ec4c7cfc066cfd64ed62d36823aea4ce49249dc318dc65d821716677223",
   "2c8a5ba3ec19221a4051ab697c2bc4f025d38f92c487e8acfea10c77656f3a76ece9aab83ec496fafc1cebd2e544d49d0cb4fda3d364e538e670c3abb623fde6eb55d67fa56275c8a3ca961c54494b5d9369d406cfb5f77865cab41d153d6034d410953c85b07ad4642cbf63ec9a91128510aacc7354173960b720b8d5e8950b7074efafd6d8b81ce8fdad981c6bf39a1379a72f5216f8f088bb050afb6524400facf8e63c23d2e21e90c2e8cdbe6825fc50a96b442cc56b03541b02201213938e6a32d1f1c46ae81de5c7ef1233b9c9b9741690bd1014b0191e118877148d68558e1196602e599e845503e52228a0c7cd1d63b56ef6a2242396eb19680fb696"},
};
struct RPrimes { int bits; const char *p, *q; };
static const RPrimes rprimes[] = {
  {512, "c0156548af9342af6c2c7129d7e8b12e19266623ad20e5f9d02c57f57a5e54ed",
   "eb8fde65f51935eec8ade94d806947ed6f4b9595f8f69e2d3a8f7fbce309969b"},
  {512, "ed3376913809f0c86e31804688db08c7aabb41c7953638df704485fc27a594f9",
   "d002cc27b668bb06103a6f1d220dc735303de29f08343d508a0c83d2fb1f7e5f"},
  {512, "d85f18eb29f9976ea056a6ab48d5dd41328e3d2438296290cd241ed1860de2dd40d88e35641",
   "dad78e41d8c4f194f6f84eb359cdfb2a06e384ab7d4bf56ff2d07"},
  {513, "1a47b03d8434f6b0ef670bbbd6c1b8d331eec22bdf890cecfc4f28ec3bfde79cd",
   "eed4e21b06c73f27e9468b3b6dfb15226f587b036b215e0652c15cbab58f2be9"},
  {521, "cf3e6bd8b73e8d6c920b02a4c56786de4d7aa435c75a87fc48ed8bdeac9843e87",
   "1d5b379f11245e8980c325615ddc036e2828d57dcc3037495eaf7db4f9ff79f2b7"},
  {768, "e8a6693cdf2010ce03d85aa737ec5f891cc0eb9be371a622fb1b66459e318bf5b51a263c9ad06b70e2e436aa16d6922b",
   "db512df27814e6fe7681451ca6020768c847291d0153ecea035088c146318d2d9b69022ef307c6b9809b438e995b2b89"},
  {769, "3c8a748305d6adf6620024b06392f5b8baf83c6cb102d7dd55e6274f727055f076b0baa8d03bf28f119b7113a2564e0f77",
   "72a893b841f9fce90f4d239658d6213fd5f2eae38e28f2972f5c2c7ef969ebca30e5bea1a94c182d416e6e5fbb74f5f"},
  {1024, "f0d7790430c15a90eebcaf19d7aa653ef1762673ab7149f41c20b1359f508a6501fd02448553a343e532d278e209c3cfb17514004d19ea0fdf77ab100bf5c04f",
   "eb0a3c58bf2f536429bd9603cc4a8329d92fbf71f5213887be0aaa7803d528c8c23577bb80cc584b80b3dfbef0f2f21b5514fe6ed1a39bffa2ceb8ebba2ffd3b"},
  {1025, "1cc048d51f0bccbf37effe46b70565ab797a3c5810688944bb69494b2cc9f2b167de954bf1944e65c0b8eba0e65a2e5d2a0d7d345bd96ba59341bfabbce9d92f9",
   "fac32e23befacd51a948316c48d0152714bf519a3bc1435224f3943035be65b50856e13ef7d124583157379aa87a1166ead14c7893caec34d94b2817cb7d9657"},
  {1031, "60a688c1028f35078e257d73afdfcfef234f9702bb5b73ddcc579b7fc1b6e133d9a6b9c4ba516bad56f8c488fb5c792ef2504504f7f12df353fa1b111c80fd9cd",
   "d8989e940b0badc93fc0c8aafe8aab7182527b48419ae60f9e8883ded02d932ec0f4d2d3cd96e8fce64f2dd0d7e4ef50146e7d1b041bfda856d953a62e850a1cf"},
  {1536, "c4356e76704fe955a3fed0702d2292d62aec2eccba7559243015ebf9d6109e83bdbbba37b9f68018c80e2258e4273423ebc5bf1e3ce8c7a1877e63c346c4ebe63595994bfe0bd7939e9775cd532476e32eeda699468a57d62a985886f436ed1d",
   "cd86127b8b31d2b48bda6f0275d1032a7d7fd7fc41c6b68c71b3bcc98aa34a08ff8fc2eabb4040115877a5197a091685bd712d8ec6eaac66f853040c5e109490bf3140020e034365a90c9dce98f1d7afa31defdf861ba567c61b082f9f9c59d7"},
  {2048, "c6dbfcdc38a45990f14edeeecb09314be66618f74cbac300c68955c04a4f7e11a7f79d30c9e87d35ef2777e89b26bfebbd6f94b9bf6dadc323a8b0b4e614c53b27bf5506eeedaab8a341e3f9df5371288b5ee99890db44db5ed86fcee7931f54110e206d8a273ca9433f7222a835d6cf8039e8442d45784d9d2569c61b64c2e3",
   "f889c07d7d8ef90b8e815f75830c1a90c1e5bec5326bf06e23d0dc4150c35adb06fc82069ac3899a1d7681857646fdbd793710c742bb295129f17b937beee74d7147bb061805aac91678c35f30aa81254a262b9d5d66fb6cdd2d923a0f04781fd21db967ba98c75a67ca0d1ccbcd05f9ad7964f26ee27c3ccaeadef805434ce9"},
  {2049, "1e7078581d001c37a23d2729626841521cd414fbd63172ec59bca52e6e396894b891eec706bff69813b89409dc90f8c7d140ce207e0ee9fd070f931a83b610be67d4088ec85ace029a1bbaf7dab5772cf79a41049ab9061a633d7151299c77fd97e3a81025bc39e6ddbedd1845601366397546dfe886cd70e238903d7d60271dcd",
   "ec92c172b3ad070cd14463d3517e2d96aeb745c19d589e20b93de3a08302ce548f764368e40cd9531409f9744b1b2a7a81175144f63afe8c2bcb4a424e5eb0582cd6ef62dca32e3fb1dc0f49ed6946ed256b765a606de05df34ffb1ba92438358f14e2d60de83b6502db7ef4bbd4b4e3a03c2d087ea57c490d971d9ba24c889"},
};
