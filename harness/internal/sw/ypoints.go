package sw

// yPoints are points with special y coordinates (made by geny): curve, x, y.
var yPoints = [][3]string{
	{"secp256k1", "cbb0deab125754f1fdb2038b0434ed9cb3fb53ab735391129994a535d925f673", "1"},
	{"secp256k1", "146d3b65add9f54ccca28533c88e2cbc63f7443e1658783ab41f8ef97c2a10b5", "1"},
	{"secp256k1", "1fe1e5ef3fceb5c135ab7741333ce5a6e80d68167653f6b2b24bcbcfaaaff507", "1"},
	{"secp256k1", "911a99bd99d05b1707461fe091eb849299ef589b8056db3bab0a84328b24437e", "6"},
	{"secp256k1", "c8b492e17665b9e65e4a124661e1103f1aebfcc849dcd94f7688dcf149f6f4f2", "6"},
	{"secp256k1", "a630d360efc9eb029a6fcdd90c336b2e4b24aa9c35cc4b74de6c9eda2ae4bfee", "6"},
	{"secp256k1", "aa054108a816a0d84cc7cb39cce350a93d831203d67dd7ed2cbd403945db360b", "b"},
	{"secp256k1", "ac9e40da0b8bada177bbc513c85a7e0f22879b3aa27a7178387c002883adcf38", "b"},
	{"secp256k1", "a95c7e1d4c5db1863b7c6fb26ac231479ff552c18707b69a9ac6bf9c3676f31b", "b"},
	{"secp256k1", "25c6fe89b6805b0e4b59bda8740bb2d03c37fbbb7fb9bf389fabc0a0848d9195", "2d327390af2abd16d9e567973d27494672da8321a546163b9add5a14b84f2"},
	{"secp256k1", "fafd8674debb322694f73899b4b2c36822afef3c3c7b16e190f00889388db043", "2d598b4e7649a108166d1de5be4fb77e58eb75363bf393e2e748ad2c859f1100"},
	{"secp256k1", "d8199bfd6b14a2df1afb28736269eeea0230669be3ac90fc7924b4c7ec3e5fef", "e4db2465ec6f8a728f3f13df22a5589da8eb8d87cec60cf2be46eedd8412"},
	{"secp256k1", "b5075f4b33d812fc57c308301d2eefd949e4b32f017d21ac133660a4bb66f005", "3c6dc2bef1d817717f73749430662c8702a0dd339e1e8e14bba29a25b9"},
	{"secp256k1", "8e4349d1d8f08841c2b61929094c9667b57f1b1cc75db52cb34556c6493df14f", "e96bf50e5e7450ede7110a2189560adf221e988c673e140835c37ee7"},
	{"secp256k1", "f5c55dd4b364d5c1e8019184ed642490b2a7093991da9a9a3425580ffa735917", "10fd5124eefe46d1f32fe09a6d09724181621c1d6729c2b450b453df00000000"},
	{"secp256k1", "946d47b3012db5a340b040829e352762daebb07ff563a79b413eb887829fccf2", "dda94c9336c5cd32de812bf964352fbed8138a5d4f29e7bfdb58ee"},
	{"secp256k1", "bb23008d6aad72d939591647d3095e27c400f2ec932ca8edb0e63b79e0d1d5c3", "35cb23c398c8efa06816b30d1c8613ff85986c50af5b88dc03bc"},
	{"secp256k1", "d3821297d61ffed8e1b85636a2b361d7837bee0ccef95aa1d234a215dc520fb3", "5bacca1fb46fec9fb859a54ca403d85b1299fdb40e0de6392"},
	{"secp256k1", "7392692d6137d13dc61b9295d176febaa191cc67310b4ca5ba15d91c472d140", "2e5e9914114182f1fa082bf45246cce1a8820b95a2d082230100000000000000"},
	{"secp256k1", "7914c35db182ee8b095ae7cd66231e8e7d0a586def38a0a980fb57798a3c9f2a", "a03406da73f85812ab013554ac66a5aa8cd67066e5277143"},
	{"secp256k1", "8b40a2e8bdfe2cd34a236c4d160f8d8872b53bae8c5ac747a833bfca5b0bcdee", "a2ba6fc0551aace8f5fc8a07bddda862359579a52d758b"},
	{"secp256k1", "5d3bc755ae1ae0143e3fab43f92405f1acfd81a50f2800de9b4f4271d5fc5919", "661fc74d1573f3a68cbc6c7f393937d3106adb4f0dd3"},
	{"secp256k1", "3bbcbfe9b4c156e4355846873230c4425f750dea355727d6d7662ff2911b6d77", "393a7c97e0e22d8c3ffeb6b1e1ebb2f801b451be538c00000000000000000000"},
	{"secp256k1", "658869f581c92515527ebe7f234131b6cc560e39bac690c89cd5b67b0e3bb76d", "c38bfa96574bc3e7ce950012e8bcdda71616c194e0"},
	{"secp256k1", "89254c925c754c336855ccb066bedf559fd0511a6371c3a598a4b620d19765db", "8e036819fb535279472f64f06b6c8b58fe765257"},
	{"secp256k1", "52faa47ba49a10d2adedfdce94c193ae6909b3ced14d6b57523e98c156028740", "ef3697a4f8c6b7b105b056312318b5036a8e79"},
	{"secp256k1", "618e377fcdb87ba56df552ef19a1baa480a43a83ad0bf0cd6df5e0a783f97658", "1b7c20d87abce7bea025972ffd64dbe336aedf00000000000000000000000000"},
	{"secp256k1", "4fdbc7af7417075cbb3da5a3495a76f60887745421cd39bdbd59d506e329bd63", "13d144e586954bdef987d8c05e6f8de9568"},
	{"secp256k1", "e58d6784cbac780f9ef31306e8932aed371f2f70185518ff7b92b0a8e98189e", "cdb522d89836191f19c06439033cf8a2b2"},
	{"secp256k1", "134dd47acb204f27d7c4d591a6ac01740800a137fc98a0549474fce779e069c", "f50b4193774fbd2bd8a3547ced9dd3c5"},
	{"secp256k1", "faeb5fd841933e741b99d21c0fb13246113465ef7be157497c4f784ae1cdc066", "2db23f93deafee8758c520de9193ab6000000000000000000000000000000000"},
	{"secp256k1", "53e8bce48d923f12b3588bfd15e1fc1878580115d11b89d8ef697af2660b5541", "bf85da7b8b31830c5169408a69f439"},
	{"secp256k1", "45f666c25b235eba0d78f7028fc2c6ec69fc7afb5132b8272db9ac2e8dd75162", "b5d41f71bf54869ed0041d84e53c"},
	{"secp256k1", "48780a6f6be5657003450f3867303783685a182581c57eeb776ea4dcd1c8a9be", "3fb2ce293075c84c43b42e1a00"},
	{"secp256k1", "bc5b4eade54843b3045128bb765c7a9689742052f0358382ec7fcd05a91d677a", "284dfe606bfa2aba1689559d1f00000000000000000000000000000000000000"},
	{"secp256k1", "91606fd1936170444dd03de75588d75ab9380ac6c678a5ce3d3c5c4c8654f254", "806e2f5d70f58372c0d3f6a6"},
	{"secp256k1", "1ee8198f92e3a08b432941660f8f31ebf570d0e25942ec6e34df1e7a63136096", "fc55c19f22cfb59a7c758b"},
	{"secp256k1", "13ed7614b369fadd31ca24f4931faacc80feb9ee1da8210d146538ad17e26457", "7e28e511554a78d22d52"},
	{"secp256k1", "d288f630a5d093d62a4836a4862161fb606189e548ea0bee17c4e261c39bbfff", "329e117478fe3e2507c900000000000000000000000000000000000000000000"},
	{"secp256k1", "cf2ab035403af2b8e2fe45fb8c4be109e1d9a10f1cab86dafdc9dc7c24f018de", "9d814b05dad672ad23"},
	{"secp256k1", "e12943b14b4b28d59a5fee2f455d5823b2a6252470a751a0128db4c77cecc188", "ee98e2a935f8974e"},
	{"secp256k1", "d458323c7f8d0124c839bc675957ca7e828044308cbc8cedb4fbc64c2934b58", "a3a839ddb78a44"},
	{"secp256k1", "2f83f2b0ec19dcf4c3ff4d88571fd201e9cf33585e6a578d1964deb00ad68083", "2ee5a6caa9bed000000000000000000000000000000000000000000000000000"},
	{"secp256k1", "44cc80cf55d6bef6adbab81f171177901eb7b6c0f6ecf3909c0f21a3060fb329", "774aa5bd0fed"},
	{"secp256k1", "7bd22e3ea68f1aa9a4d70a9d73da70715eb769d77311c8adf88b692d8185b4cc", "5602631745"},
	{"secp256k1", "a2eb7d60280bda718231047ba8b8726e798a0bed092304cb7dd0c99ee520e558", "f889dd14"},
	{"secp256k1", "1548aa697d501b9d45e22d6a0f8280ef5a748d6d6ea0918006941b1076184d67", "d19cf5800000000000000000000000000000000000000000000000000000000"},
	{"secp256k1", "e964191362e1cc7725c74c634799c93ad64f5b821e46bba2822baae8aa0bc739", "a627b3"},
	{"secp256k1", "869d0722194c8abe8d68d31efcb81ee571cb7b43cbb152557ad4e383b216f58b", "c6d9"},
	{"secp256k1", "4173ed097d5e06a460cc5737cc9abc4644e8eec6af3215bc4ee576c66fd222af", "cd"},
	{"secp256k1", "d739c3d403968a14e4649eadcb34550220ffeb880c96e3dd0520cd18ea779ca0", "80000000"},
	{"secp256k1", "d729bb110b81634b5f73e642838d40020788463ebdcde0f78f68dc4d7be2378a", "100000000"},
	{"secp256k1", "63c7ad6619f8febf84ba7d534b4ca7246e36ededc2f220828c0b73b26e4abab3", "7fffffffffffffff"},
	{"secp256k1", "1599b4ae2de6b021030e780c9283d3246133c4b2dc49b6a3956316651af9c7d5", "10000000000000000"},
	{"secp256k1", "b40142f1830cdf4d49bf612c051665e09307900faac0feb83cfa66cd26f9cd51", "1ffffffffffffffff"},
	{"secp256k1", "673e81efc219b30612c65db049d7d26df7a1a59f3a903cb2972b57b4061fc05", "80000000000000000000000000000000"},
	{"secp256k1", "338cce5c5eb76ae2ac028923748c30d4185816c1e7cbaaa12ece2bdc5602bdd0", "7fffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256k1", "99d4515e75a543d6be280f6a6a5bb09af2cd7f1cb011535935cf4ec6e009b65", "1000000000000000000000000000000000000000000000000"},
	{"secp256k1", "7d387f606a9cc894a291ffebc636f0fbf83a8abef05a1e5ec54101fa5fe09c97", "80000000000000000000000000000000000000000000000000000000"},
	{"secp256k1", "82ad711d7aa83c62ab329af58f92e90539655a307e89fa27f13d502b0d122194", "100000000000000000000000000000000000000000000000000000000"},
	{"secp256k1", "ac45a1699f1a8332dffff681ceec6778c62efd07a21f1fde60f50ef0eafb3ffb", "1000000000000000000000000000000000000000000000000000000000000000"},
	{"secp256k1", "895d3c963596afa0e9fb4629465ab2a4f483e34dce3b9396a0e0818f7bf21419", "2000000000000000000000000000000000000000000000000000000000000000"},
	{"secp256r1", "9e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "1"},
	{"secp256r1", "8d0177ebab9c6e9e10db6dd095dbac0d6375e8a97b70f611875d877f0069d2c7", "1"},
	{"secp256r1", "6916fac45e568b6b9e2e2ecd611b282e5fcc40a3067d601057f879ce5a8a73cc", "1"},
	{"secp256r1", "7fafb72b9e2f17b87cc216b6785c0bfc860ed577216fd3c8f30a7a8707e613ca", "4"},
	{"secp256r1", "cfe9c22cc6825c8aa62f56d3ddcaac9653eb03e08b283fbbc9fe1bd77607ce12", "4"},
	{"secp256r1", "b06686a59b4e8bbedd0e9275a9d9476d260626aa5367ec7b42f769a182121e22", "4"},
	{"secp256r1", "d7325d7646cd60d80a92738ceb345f844cffaf35841022cab176f692de8de1d7", "5"},
	{"secp256r1", "9b21c2de1da31d68731dbdaf97d7ab3f979131e28e3dc5b2077d5a7187914a78", "6"},
	{"secp256r1", "b2ed6eacbc9f7da8564d94b7e4df51fccffa296dc6693e4fd7acceaed56ac453", "7"},
	{"secp256r1", "7a981e70f7679c8077bc599c9ace4d372f22377efa7446fc0f4145e0390d2f1a", "9"},
	{"secp256r1", "14579b00f124175c62981b984b2c07d5b600d0a383e8aacf2a14dddb59bceb8b", "9"},
	{"secp256r1", "7110468d17744c2425ab8acb1a05aaf31adcf7de81a30e34c6a9dc446d35e55a", "9"},
	{"secp256r1", "6655861894c5d2f49bf3dbc1b3b175009530f4300e73f9d1a16c4effb44956f6", "b"},
	{"secp256r1", "9f05aeadfcfb840b12ef36df91736a281ace5d5447843bea9a8b3cb9097ddbc2", "f1ee4c586b398cfa102ac3102896f2b188e9ca79c4ee5977c3d4b3b4fa90c3"},
	{"secp256r1", "5a433b257c1c75e8f650b9a4bc8da4b59da0d45c27a6582890816e4f658e86c", "649f42c6936b6e53a367c381945442e56224820bdc344e95f45cac2c336d400"},
	{"secp256r1", "b3649f32d3fa9c6f1097cd899196b3c151f25db1e788428d044fab3be8969eae", "2bc221b10fbe7700a92bef8d139a6609fb4ea5afcb13c337766de265bda1"},
	{"secp256r1", "bccd0d2c7af75195d62884721a33e54adc09410ff33128e8a38da1902d138b45", "e4d20bf7d14c092db5f3077da8a3eac2136cb3dd2e5922c9538adc2d1b"},
	{"secp256r1", "3f01c1fc55def2e10440d4d8006ca01eff5bc822f88dcf73cc341434a9c348bc", "1bdb981fade10914e7f3be629ba02ec034b544c018c0e200e2a5fd8b"},
	{"secp256r1", "69a9f3199edea4366b9754709387ca03f599b6e297f1fb703b664a125ce88899", "17d373bbaa19bb58b08a05b9e66d6ea47ee0da23ef2357069c4a478e00000000"},
	{"secp256r1", "1089979680f6dcf217d7422b2289f4f7d72a8d709752a51ae64328c0bf128129", "6e1450eba692f635909fb83f4d774d98589a092247a8fda346878"},
	{"secp256r1", "31a69241b62b3114ac27c8fe87b179c2aeea487297f6914baa42bf3aa724a7ee", "82c80c11e314e9eeefab33bde97b1c2cf219adca6254303c6ab7"},
	{"secp256r1", "42eace778fb9d46a9fb8c2dbc57c28f0f027d733907ca134f307df8803a42758", "6fa8ffc74a344562d7eb80e7ac678530ca44cc2776c9cc0a32"},
	{"secp256r1", "c87740e9d17f45075b66f12110065b6630eff027f6026ce9524a5fe65986baeb", "112cbcf176fcabb1c92284dd12d25b7d699d91c43052f72a1d00000000000000"},
	{"secp256r1", "3ab03aeccd35d07ee42ee2ae227703fd0a49aa3dbff5249623ae4defbb1c8ec6", "ff481b6a8de4ce10ef3029bbb2730f68c06a128e60a12874"},
	{"secp256r1", "c6733bb8fea0ffb5d30f28ee395a209148abc0c41aef7a2182e109390824a8a9", "1620015896162ccfa8436b64eca65cb913910cab10006c"},
	{"secp256r1", "fd93cb196985414ad16687f24ea020570814909b56495f9cae9be8c9a0bd48bc", "53685e3340246733e37461eb86551b6bb87bd772101a"},
	{"secp256r1", "70524a6b78d97b33e6293518e22d5a8c49e45d209fa727d77477a2caa5b7417a", "2fddb2c034d89ee4b7e3788b71b30d4a6982905af15600000000000000000000"},
	{"secp256r1", "fef19ae74570769de3bc30e5c7ce0f4244b183c340cae04a9b09c5e96bf2064", "46b3feb58a2961582399532615c346fbc03bc63a94"},
	{"secp256r1", "c87533dc7ae13896111c8827ef642b37a4e1ab5b000580429bc051d9495a45e6", "b6a402eeaa59a37662b3b627fca3203c5a9bc56f"},
	{"secp256r1", "3531be5bb5f4617aca9ee9c496b854d613df4bd1850d3794c480abf7984e447d", "b19c5fee6602debd45f0fa21c271ccbb054da7"},
	{"secp256r1", "5722330c08e9810ea3e9ef26939c9cf7d01ac8334deb88f750efcc97bf370c34", "3e16de51c7423d9ca13d760bf0d107ffe0204f00000000000000000000000000"},
	{"secp256r1", "38864ef729c8d6abe0afe4f4d3775365fd290e2dbcd2bf5ecc4489c4aa64555a", "a54843f961753105d16f8338d1143d6ffc77"},
	{"secp256r1", "cd470e7e701836890d009d9df2198fca90c8b7625cc57106f908154384136e50", "66fd97dcc139ce9851a2dca340a72d5707"},
	{"secp256r1", "d194784d9cf07b6e7024c7a70745a2554dc03739565c1e61426941b448aeda35", "dfcda346c0f3cc55434955ba453671a"},
	{"secp256r1", "c57ee913f649c3eef4a42749db67930bc1c529540d96a59d2fbb49762cba9dd2", "5271c6fa23ee2f264eeff54a584398500000000000000000000000000000000"},
	{"secp256r1", "38cba7d421424b2c7ab10296489c0e360dad3934126c428381136242b70663ad", "512a985f1cd32e9b2fa06dee416e51"},
	{"secp256r1", "78437874372da844ca5932b796cf4235091ea3e7d1c8be9055c9c274dd41eff9", "6e59881909909936a1e03832fc6b"},
	{"secp256r1", "2607db655176ac023c78c5baa7826d3501d2df4b752c2ca0d17871d4213aff21", "9ccf30c4a476f29c535c0b5353"},
	{"secp256r1", "48506708bfc282f73ab632107b2c51dc6791d21639964460012904b205dbfd11", "7b45958671c8852b793247bec00000000000000000000000000000000000000"},
	{"secp256r1", "4a330bde0d681b6cb547dabc135e613e3328cdab86729216a8539a39a1eba80a", "26e582155ee0da3ad3bbd2e2"},
	{"secp256r1", "c3df697e43274d23e01563206ee358c68b980bc0837e3e36f706c6f18f033ff5", "f0e5a7a56c27356a9d56f8"},
	{"secp256r1", "477b4b383ceaac9b36f366f607c6cd91ff80839b2b2db0b968be8db990967bce", "322135fdb17b2bcf6250"},
	{"secp256r1", "10a1d28c7396a5604b6a05c1081ff52d6877764fae37b65765d8af86d88459f8", "39fe6bf8be147f809ab100000000000000000000000000000000000000000000"},
	{"secp256r1", "76e7ac28623e734e4f78370f5913a85d7306abd0676e6bcf3802d4b25f2bab14", "906912101db31c1427"},
	{"secp256r1", "116f4b96a4b28f02050eb91ad9dfdecbf473638ec2be20a23fc21321ddb61c21", "37c5ff41e1c2ea83"},
	{"secp256r1", "419226c1109c565fd545ee970dac2d271c34edd5cae70ee05a6d8728af6657a1", "b5ec5ac8eea50"},
	{"secp256r1", "6285612bc2ca64fe37954aeb749cfd15c278cceaa0a014ec0181451e13669524", "377c8d63605f8700000000000000000000000000000000000000000000000000"},
	{"secp256r1", "8dfc200ff7bdf57c86988d566d395c926ef8f30ea8149955c42b8ee069f3f3bc", "15cd44e73c1d"},
	{"secp256r1", "de2f8765633bfe394ab4c1accaa582385c50f9de15a02ecd1dd0b228597487", "39cc7a63ee"},
	{"secp256r1", "f2a8013bbaa4c6c47f037ed7f68157609b92f0b880dfaf3e2401814879053916", "bf77d2a4"},
	{"secp256r1", "9c66a44c6274282384547df8a4974481c00d11d21bbacbd15c83157199b78079", "b4b0d2300000000000000000000000000000000000000000000000000000000"},
	{"secp256r1", "7c38978e87ad3d8d51fda599c96951dfe5476d50c504cb691f26425996eb9046", "4d03e"},
	{"secp256r1", "f72f0f0c73e182261d6ae4e56b1057fe71d5474cac97fc7a3dd58b611e09da35", "7bcf"},
	{"secp256r1", "7abb423fac8695e010ae0320d8e1937ff874ecccd7c212411aaffa23684e6178", "4e"},
	{"secp256r1", "c40cdcacf9ff457c7585ae9a3094cab37b36246868eb76fdffcb56d924e20a4f", "80000000"},
	{"secp256r1", "10cb4324d81d1fa5ebf0069551d802cd9c1db1d012f3cef702f281e0c7412bf9", "7fffffff"},
	{"secp256r1", "2671d833dd9a9e2075b0bfc4857eec976c8093491f313e535fc073295cf7c2a8", "100000000"},
	{"secp256r1", "16693be78b16621e622e823860aee2c8f79fc412ce81178bc7472430668c2b69", "ffffffff"},
	{"secp256r1", "9c44d159c7d32a53fe06441900f5da232eaefc087ecb49f9f4a6170c0f2cd79c", "200000000"},
	{"secp256r1", "1170590f1bb5c9b41238e26d50239d51d91a61bda216dae0b01485927b264ea3", "1ffffffff"},
	{"secp256r1", "17ae19651c135676f5d67c0ec8287f67ab71a696f0b9fd1ca3ef9d05406fc27b", "10000000000000000"},
	{"secp256r1", "4d209c8ec65d6c30cbd3afb37237f9c08ed09a5a43d6ce0b00a9e3051c791904", "ffffffffffffffff"},
	{"secp256r1", "b0b7137bc6bbd772fc54a9e01bfe0fc43dd183018f0d96c5056ff3c6fed27a7", "1ffffffffffffffff"},
	{"secp256r1", "6abedadec8ed495f8fbe881824703527ce3effeb8bc5512bc7eaffb64406361d", "100000000000000000000000000000000"},
	{"secp256r1", "d1f4f2a6a65d70d7133156e7f1ad2ca4a0d00d048e717a250f971f7a494c191c", "ffffffffffffffffffffffffffffffff"},
	{"secp256r1", "647d825a4011c513de8a42334dcab933abcaeef87d5539a76561ae7fd8f9302d", "200000000000000000000000000000000"},
	{"secp256r1", "b7c37dedc35153b2dcbbcdce218d6432f6ba15b3d7068720207dcba8a3a9d5ef", "800000000000000000000000000000000000000000000000"},
	{"secp256r1", "504bd008d4679291083aa54a8d1866863770ba75343018e2b8b45945023e823f", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "faab2b575874acf3f88a2d1c144791aaaa0e401aa055a22a09d7b4187661827c", "100000000000000000000000000000000000000000000000000000000"},
	{"secp256r1", "4c42b994bf3cbe59da9b9eacb623291092f039f0416a3f5690626d2d2f806067", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "2e772e45af25007e4ce251b43ddcd702ffd0aace5eeb93f11370d9805176e63f", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "cd26bc734429a009b0930e4ad2634593d6d8fa3512db769f5d7ca1463d76dd78", "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "dc562dc6b609c670446bab49972331bf0533ec994b307a97d668b459abd435f6", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "9de727c7361d190e9617bcd627b7e1324f44643ca8b3e435365e94d6e94348fe", "2000000000000000000000000000000000000000000000000000000000000000"},
	{"secp256r1", "841ade410a4e085555c09aa035427899bbc0f0d0b54cbe9745759edeb71f7c08", "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"secp256r1", "ee0b0853a98f1e5cdbeca6ba6bfc9318eb1f747691314aac9b1f28a0fcb358c4", "4000000000000000000000000000000000000000000000000000000000000000"},
	{"secp256r1", "8e66e22e74631358479c45626f1af6306612ecffa5206f03f756d3153415c237", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "9c17043effe1a805a74a9a5e70b9d659705d3242094a566dc016f49311178d1f", "1"},
	{"sm2", "3b404f94e46027d11401987cd5acb2953e4bff91a7d856b40986700015b4f8a6", "2"},
	{"sm2", "1800ffcb38194ce0905766dfd6b9ce196095203d481ba8e4e614749d615cd506", "3"},
	{"sm2", "6c504604f185db67ce1a538451c37804e2121d283e1e31ca3f9bad74b6a40cf5", "4"},
	{"sm2", "791c45d2c77b0437b92e8a1df6f6b8c37f7a16df8e59a8e1009854df57d20a4e", "5"},
	{"sm2", "c5702aeab631611442d0270d55857db2beded803327532394b9532cdbe1a18eb", "6"},
	{"sm2", "87622a8a81c5a79aa2357feb39869a6cd57bc2d74f9f4aecaa2954c923efacc5", "6"},
	{"sm2", "b32daa88c808f7511afa590770f3e7e06ba565237deb82dc0a4178691df63a4e", "6"},
	{"sm2", "633d32ef2faed807c3448381036f88d3b8c87b19623229eeb0255dc81f8d5585", "7"},
	{"sm2", "a892ae16da77ae252a5e297ee31cf8767294865a4862b482ec0bb9fa7772bc18", "7"},
	{"sm2", "f4301ef7f5d979d3125d530019737eb5d4a2fe8a556b219063cee83d68ffee61", "7"},
	{"sm2", "648729b165c8b26ec5860899e774370f12e249337f13f217e74188dd04a450e9", "8"},
	{"sm2", "b1b53ab17c4189baa08f94099ac5d78aca728a108cac0e7a26490f3b71470711", "8"},
	{"sm2", "e9c39b9b1df5c3d699ea635c7dc5f16622ab2cb9f43fff6ff27567e78a14a804", "8"},
	{"sm2", "26893d1eea12e82e488605a9f54ddfd2a0ebdcd3b423acf50515eea87e2ed6f1", "b"},
	{"sm2", "3ca5e39a61e965375335ea3d41b2cd91120398dd75b625a4327938fba937abb0", "b"},
	{"sm2", "9cd0df45b403b29a64441018c8ff529c4d108a4dd6262d67c870d85bd8997d5e", "b"},
	{"sm2", "71f111a9a27da93f2e6237115ef38295ae3e4af65247235f1b5aa6f3f20c58d5", "fed056cd46e5b9b8c850b7829856be907481223303fa959adad34b6f3e3044"},
	{"sm2", "7a17fe4a416dc4967e3a175d21349a903e898923b54727f27fd526fbee687a12", "1fca342427975cb6621313f28975db5081faad398aa01d7ff288906895fbc300"},
	{"sm2", "b128dc3222012453c54cded01b393f34ec95bd7ef7c196a742abe6215c44a335", "dfd1bc1b61d8954c6de8b895aeadc52ceecfe96fb5ef434663fd7649009b"},
	{"sm2", "e94774e5e04643ac25888c9b50b7e27036f17caf552267f05e0dfe36baa11bdb", "f9109bd600cfc95894d652e9f6f77700573f13a2150e97897eda2de046"},
	{"sm2", "6abb628096b688a4bc2d7104a5a3f5e71734d511164d5e103d1e1335c34a2442", "f6fd2a9706b6b339bf7de238619adbc51b9f8620a79cfe11821b665a"},
	{"sm2", "dcdebc43cd6aa44c8c40e20cbacfe787aa05aa54dc2e477e9be6fe202b137525", "381d68fab76951845a76a6b76b04b7c27ff09d7efcf4d7b66500c9ef00000000"},
	{"sm2", "48e0652dbf846ba66c7bf21ba54e039251e08cdf0ceba2a0891919751cacb82e", "c076782351cf32d76086141bc35e68be8580ce0629f4ac0050f0c0"},
	{"sm2", "36062c33cfacff74b5d43626111458b4a60755d65735647b9b2ad904a1715c19", "cf3850f79282a43c49ba1d886ea0f8e75fca2dd9893ce45f45e5"},
	{"sm2", "80eec0253c1c8e67283dbd7ce977dfc7c423e4e66b7bac1b7242995ec283cbbe", "1ec79c96842b185c1db6073df7c399812ee8f104ee11ce3f77"},
	{"sm2", "1f806aa022eb1dcbca545143281e85e5684e090a241dca9f893b1ddf23e09d9a", "2620cf454dc1db02e4d8be36e932907b6f3df9f137f60371fe00000000000000"},
	{"sm2", "9738117a515b52970ff14d050227a3dfdf99c3909854f6b596c83ca29fd89f48", "2b533810bf6ce96ef99f2b067781950982bccd258d926e40"},
	{"sm2", "78d1f7ac6dd9bfba3d94cf3b419012f8e7d484f0f42d6e3af25f5c6a6e38ed54", "2af641e80e32323151d528cd649344466cbc1dff798353"},
	{"sm2", "883a995ab0e2af82e333f9bdd4127f65a76c3dd706fdc4c4f4fa4785c8dd1aeb", "f4ce77967b05da3dfa57440146742ec241746eae6c1f"},
	{"sm2", "3b5b63804ce8bb7f4e4a882ac4b88614ada8a26ce075aa7d7e7f9c6a71d8a977", "85a2c6162c594b899cbb85a3542bc54746b064ef46500000000000000000000"},
	{"sm2", "81b5fad803ccdf5f9b92e2b8b3910f4047017ae450ba99fbcdac3faff7c85fc6", "d176165b9ee90d29710b4b9f349a18275dc58a305b"},
	{"sm2", "825a2e16a31966782f0a07a2d98fd325d1ebf046fde9203f00e553011e5475ad", "cddf6e7a4af6c05a48d3024c4e1595ce736aec6b"},
	{"sm2", "b69b98a681b9bec73601ac3d82c58b6f91fe793b89ccd79f106d1de058fe8bd7", "bc08ceb84b84fb699742cde75327a584dca5c7"},
	{"sm2", "413a644b4656b01c00a231c8431ececea9d2d98478b20c6c0fa0279c20f49849", "8d40c07a80c7eaf3472b5da485818e4fe45b00000000000000000000000000"},
	{"sm2", "bfed83de73c04c8a33d49daddeb45527e54d0c54724d274e6d5d161a34cfca2e", "a6055c9bf3f6bb2aed552651592db113d8ef"},
	{"sm2", "f70e6d636d73d1c3a959acc73d4a29933aa3d0347b30e6c287b3dea80c1facf0", "88ffa8d72bdc136e5e4009df8880953044"},
	{"sm2", "4b8e0acacd3882393648546ae21ff135c72007b735823f7e5cd2e83cc7d10037", "c02522d1804548720156363c35b1ce49"},
	{"sm2", "5f485e9411e37c2b7599ff135751fda00762bd276ebb4fb1e6c978b15a318fca", "b194d23a40d9735d2aa348a1128ce8e00000000000000000000000000000000"},
	{"sm2", "7506494c5143a4c3d667249dd744a23bb20285ceadb80c82b0d4c81733671ccc", "86d14744e36211a875dfe9f60e8f7b"},
	{"sm2", "d2876e07c43382f49be36b3eadad878930115f47807bf7b0c9e293830fb5f125", "aae0fd23f8bd2ac3041646831fa5"},
	{"sm2", "d57d3ff57d4f85fa1c3f6be6ad067dfe02df07e687f3a464c037f393a4f66cbb", "212cf1b0ae213e9f7f327f6717"},
	{"sm2", "fa013afc831d20fa7f1a8ebc3ec7805135a00adaf4211d0a575698d4d2075e43", "16244b1ee8264003f2a22c491700000000000000000000000000000000000000"},
	{"sm2", "de1815c7e1bb846f4b6b96de6aa7c18458533dc759999b3d5727e9ee45c0ef91", "f5ea6964fe76f96624450de0"},
	{"sm2", "62d76822bd5869509511e3cf93d0b5005c5a03bd6ddaf92da968657e6f3a46f3", "7919df75144f9dd2e1c0dd"},
	{"sm2", "ee5897c686dcc939721ba2fce6a9663f7a91569a55bfb9b7f40621397858a569", "7c824a54e200e3f81e8a"},
	{"sm2", "c06e9b8432faba6ea37e641dc2da4169c9dbf3a60c17e83674f3a6854236270c", "832255b9f9c97017e3f00000000000000000000000000000000000000000000"},
	{"sm2", "7aa8146e51faa1d28a82c4219535e94e5e79a7884090e5f6f1805dbec981387d", "f367ea47359bebd0ec"},
	{"sm2", "6fb6f5291d5834c51533e7f1880d0d4f64da4aece365a5b6de82abcf528732ce", "9ad2685831258532"},
	{"sm2", "2aeb8da1c2485169dbc0583323b7ba330093c75d214ddd4062ce02fe662cbe79", "392bbee43f84ca"},
	{"sm2", "bc7f065f9c3ecf073a601365e1c6d4e4440066316e740d6cff665134993e8d45", "206ba3a8bca35c00000000000000000000000000000000000000000000000000"},
	{"sm2", "baace01b4bebfb83860ddf40551497b6c3ba4b74c7f5134c01b8f081f8a5f911", "c753abe23846"},
	{"sm2", "13c0a893544b2ce6a5233f3c31c326e1627f07ba5b032e716bee8cd5954c010e", "5bba499a22"},
	{"sm2", "636a0863a9e2811b3c4c257afab28d398ab5d4b424d96f9ea5329b4428e8d03f", "c24db728"},
	{"sm2", "4759ca0267b9a4ed749d9d629626fb4a8a83ba12b60b83de70e10f0a0d80a1c8", "2431e17200000000000000000000000000000000000000000000000000000000"},
	{"sm2", "5da84bc1814cacb131bd4738c0a504d4f331a8cfa9f1b24d65ef047d3bf2ab72", "5e41a6"},
	{"sm2", "f5055400b9c647eba0bea47678c41ccc517aadef9bf02cde10b68017063e4320", "d17d"},
	{"sm2", "ca23eb1eb49102b8025ff930c296ed8a2cd301b9ef2e6b2714ed4b7aa365310a", "7fffffff"},
	{"sm2", "57de078703cce5a281be300656046b2556a41f81104982b2b42d8f6f30509423", "ffffffff"},
	{"sm2", "2f8084312c71f71007a2a8f5a3586051715007615b3830c0834f8fa915025380", "8000000000000000"},
	{"sm2", "203fe35f84f42f2a0c5b52e974d452dc9ebf2c55f0ae35831b6d1bca580c6c9b", "7fffffffffffffff"},
	{"sm2", "cb12bc1b73f6df767052545bf1b4afb92f56abc3f334ede4a63b55aee8dece77", "10000000000000000"},
	{"sm2", "4e52bbba4b421652a88ceac0f91d47467b95535ea40198c0a8929c797903f1cc", "20000000000000000"},
	{"sm2", "a758445f733db0bf123c797a39508daf7b2315faeb08dc87d2ff89e71f870e22", "1ffffffffffffffff"},
	{"sm2", "5224c67c4e672af58aaa14ea6b6f602b7dcb9b773c961e38113afc9ef736b1c7", "80000000000000000000000000000000"},
	{"sm2", "2ad3e6d09bed96180a7d3359a244122e71b685ce2ba9dc0782338a7433429c98", "100000000000000000000000000000000"},
	{"sm2", "39e653cb7a86ec435f4e9c6019f9910d56b385d6bf1aca7a656398fdab074dee", "ffffffffffffffffffffffffffffffff"},
	{"sm2", "1e28b581c0a0320bb5ec642f75f30e671beba2dbdabc707c59077a99f8d90939", "200000000000000000000000000000000"},
	{"sm2", "8a687d0d277afb6f2d0122d5d1e74008b8c8afae33f628dd205ba0f1dd41f72e", "800000000000000000000000000000000000000000000000"},
	{"sm2", "4a23001383da9e404170800d56d05c5fdb798624059a3da51626955e8a9e41e1", "7fffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "6243f4fcf51f4d0c551ca9598d73e4ec6db3f53b8db03967ec064d63539ec715", "ffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "565fe841451e8f84d27ce219a901113c512fb5e7ee90136db57a2275f8a7ce53", "1ffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "785c4966c269e4b3b51b0a4bf30676fa21a748acefb85e9111f0ea58491067d3", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "e248e6fd858a4fe25a07900322c1afd602a44685c5c059411a9e0d50997496bc", "100000000000000000000000000000000000000000000000000000000"},
	{"sm2", "5642cc3ace124ceb074eee57d2a345d1da4aec531acc1cda9e7b0793e5789c77", "200000000000000000000000000000000000000000000000000000000"},
	{"sm2", "8730141c411dc020d8e3119aa04e05f56db5b3cc33867f846a9cedc347aed7a8", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "1b6d165ae1a85b068dddd484e549f098bc0c07bc8ef7fc597e8de90c0e83a8b4", "800000000000000000000000000000000000000000000000000000000000000"},
	{"sm2", "a431736f6fdebb38ca2d1bd8201911ecafc86bec4786fab26f874e0e5b5c04a2", "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "b93f0bbb4e3c6d59bbc37ba7864d2e1e90f34bf6bb85c72873b6c1014b26af78", "1000000000000000000000000000000000000000000000000000000000000000"},
	{"sm2", "b8817b7307de792b5283325df7d2b4f9ceaa6360f8dab000b416f9cc29e26259", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"sm2", "84abd9e906b753be2cd43abebefcc51ed02df1d9922ff1fb4f413dd67cec7821", "2000000000000000000000000000000000000000000000000000000000000000"},
	{"sm2", "d10ba80a01e9b94f6041b9175b74b3138634bd734b653740130d8813f2fdf451", "4000000000000000000000000000000000000000000000000000000000000000"},
	{"pasta", "2d33357cb532458ed3552a23a8554e5005270d29d19fc7d27b7fd22f0201b548", "2"},
	{"pasta", "12ccca834acdba712caad5dc57aab1b01d1f8bd237ad31491dad5ebdfdfe4aba", "2"},
	{"pasta", "40000000000000000000000000000000224698fc094cf91b992d30ed00000000", "2"},
	{"pasta", "2209a246941923fa916f3738b12d26da2324e83ae23562c85476142a8e626925", "5"},
	{"pasta", "307178405b53bb2ac645400885491e412d2f9db1bb839356dee5cc51c3e086d1", "5"},
	{"pasta", "2d84e579109320daa84b88bec989bae4f438ac0b74e0fc17fefe815dadbd100c", "5"},
	{"pasta", "15ffd3d87b74c3dcb2da548c2ba3fc7687322bb2456e219ec80bd6739d2d7169", "6"},
	{"pasta", "24412d6fc67c57abf1e0d85deda9dc98b213ad1e8292411222477ee4a4d79df2", "6"},
	{"pasta", "5befeb7be0ee4775b44d315e6b226f0e900c02b414c966aaed9db94bdfaf0a6", "6"},
	{"pasta", "3279e57492c7a18732050d4f8697be454105e8702ff538ff6e55733245ded881", "7"},
	{"pasta", "217cc588649240f7b08b3707850a5095a098d7ac8e1086c10bd4c9c57c263032", "7"},
	{"pasta", "2c09550308a61d811d6fbba8f45df12562ee71db54943276b83024e23dfaf74f", "7"},
	{"pasta", "1539f05e7fe887ba01dbcb13dfecd741a6371653e428ee9b71a8d9dfe8f509d4", "8"},
	{"pasta", "28e27f78faaf4afd95084ec1ea863af042f08499be050732ea12c97b2e434abb", "8"},
	{"pasta", "1e3902885682d48691be62a358cedce391efe0e671f034d3d718d91e8c7ab72", "8"},
	{"pasta", "961d2fbbb1caa2689f2a59a1438c419635edf5960555543e8bd34c89df790f9", "9"},
	{"pasta", "2ef5756bc79728155734df763f41b7cafaa30873b0ebd5199696f000b6f906aa", "9"},
	{"pasta", "7a8b7987d4c2dc41ed87aefac85841bc444b12ef80bcebe19d90c23ab0f685e", "9"},
	{"pasta", "384cef333fbd50d2eded18e6059af603d9cc7465b4d101a2d139c282739f172", "b"},
	{"pasta", "7cbdb73136f2320babf6f83cbd6c20e9282adee97aed15bc8cb138f3b8ff2a0", "b"},
	{"pasta", "34af5599b89507d21661beedd3cf8e91522723c7165117a5a34e81359d361bef", "b"},
	{"pasta", "3b1f79f6bbfd99f1dcbdddf07f1aa71d0fb98d0befef8f17d525f5a90c7b9fde", "d3e860072a8aca9a41baeb7e11527c0a2deb5bac3037ae7aea83f8616e7569"},
	{"pasta", "32a63a499f37913ab8ac504aab8184a1f7eed29222276dd96d0436d3e1de13cb", "2631600af1d848f13b7f4ce9127d581c564897656e6c7f48615e6cd2efd62c00"},
	{"pasta", "38311dd548ffd9565a510f13e0ef41010f81151bf4b4834c8d9615fd40a24a55", "dfeeee958412094a13c9360236a3b873ccffcb5024131c893c1772a2fb39"},
	{"pasta", "2b49be425ac14255e48bc76cffcf2702e37c070bb5ccf496804d413048bf2985", "a2aea06c702d6a910423b56f711c5290671e52127a04cfb2d34f8a0d58"},
	{"pasta", "223f1d530f4c5c73cc1238f3b7b448a96e32ed157ab49a909fa78bfcdb409efa", "40207c58cada523d508d6461eee6693fb9a1ec7c1a3f158fa94c6f8a"},
	{"pasta", "18559f44a4354cad605ebf417c4e06632a6828851294509caa4bf42e6d10b0f4", "3ba8094ebc9adf15474e6151395514b346096ea35c6e72a517800e4f00000000"},
	{"pasta", "28d89eb4f825b714c867bbb773c49d6f10801f92abe2f5aae8478c6596155458", "e13b1fd1a76f16960329cd67f0b3e6a7b14896675e835b87ff9607"},
	{"pasta", "1e09fd22ad70a07b5560f4a9d6f5aad627fad0d28cbebac1fd0265648fc35c54", "1ed4d02286196adb207694001f79fafbbc75143cbc13a7c3fde5"},
	{"pasta", "815d394d9607d0e7718bd4a23d8a1e68088830da2c5b8004a8ebd70c003c4c7", "20906b565f5ae1891bcfa2fe8806d0f8c7aefd1ba2b9eecff2"},
	{"pasta", "3aa9f1c821ea8bdf18987e3a7dda28531ff3775811aa6f414ad65b5249da2bfc", "2ea025482246a49a6d9fe947942d30aa8a858aa65a3ee89ee100000000000000"},
	{"pasta", "3b2a98cd8de2c3dd551fb3f26a222ca6477edee91c231f6b3083f8bae261e2d1", "70d20e679eea7e7d08fe8264018e1413947dd529ce97147d"},
	{"pasta", "24aef80c36ae1ad89d1085c975073682fdb477cbe5d20c940e00d3a228a3fc3b", "c02376447111c379e8304549edbfa5c88fed9ae6f6a63e"},
	{"pasta", "39f0dccd7353dce8262a6d7d198194145027c8b2adf3e1e83a9e72becc3e0138", "6be9d322be1915905b9c7be261090b54f198055c8ae3"},
	{"pasta", "789c9259ec4645127b11ad9a00a4f487ea4c771f04c069056c3600dc8c46769", "fc5a7338a1207eef79886e4944995130f64c0732fb900000000000000000000"},
	{"pasta", "127e2a78dd0694aaf5898da6fb63569b125df181f0bce1b234d425fe73a9976f", "7ed6bd2f50bd98fde41e4ac0060d3ab504115767eb"},
	{"pasta", "16609a22005d9054c2bbd71aca8c408adbc6e0052fc1d5f36ca28051a968cd8d", "993086a29274b1a52b1be21c58ba084a0bed6662"},
	{"pasta", "3ee9912bfa248db0c47fa26f6003c85d4fe2bfaf73d611b270b21846eafb78d", "867331951a79c85b5f8288a7184964cc076d4f"},
	{"pasta", "1ad803803b2dde72795e9fe4b7c3cc9a1477f35a1fbcebb8206d07e613320488", "116f7119784d231b09dbdaaebde5f17553984700000000000000000000000000"},
	{"pasta", "365de8d68c757e4ef2709b9c68a92858cc0c632bb95fb85b0686e8b0720b96f3", "b06b4001478d0cbd05323131440f99db9426"},
	{"pasta", "2072121680779a4f6707805016d7eba6b28102e499743ad85dcd326cd1ed778d", "cfde29e994a9a45d665378bf1dbe1e9d5"},
	{"pasta", "1b13d597225e6056512e18d94b5ead5d439963f57b3593bb5dbdb2883126264e", "f36440756bd69a2a36eaa1e7bdd1842d"},
	{"pasta", "1a9b48902c0873ed4b4f3d5e1ead0a38193e70d444742db2bdebfa5fc14a994d", "32b7d3fdbe334b6de58c49a6aa55ed5700000000000000000000000000000000"},
	{"pasta", "19c44e3d2d8332c5fcf0b62ae936df9391d85a1c23f9bd5f35d84fafdb2865c2", "43a4d5170092a29d7df8e24d194268"},
	{"pasta", "18b422f15324b24d624e1332b9f839f31bf002290a92309c602895a20c77d67a", "9186126503624627e0de2338df2"},
	{"pasta", "13f6ee5bdc29292e8a26c0cddf26f1194532c3b86a5548f13baa7e287a04930a", "f8fb2836422920e8229013b6d7"},
	{"pasta", "75740ab5d5db8144d0127c8dc8187a0c7c3090e8c686cd104763628178ebbbd", "46ac608ecb0468a9298b6855400000000000000000000000000000000000000"},
	{"pasta", "642eac04828a06244ddede948df2f6e42a993635e3424d10ab2e6c9497dbc5", "232b0ab7ee3ea682fcd9958c"},
	{"pasta", "26d65b073ad25803607d1d76b7e3d647327d07da3c8b5df93a454b9ff1035a2b", "81fe9b3f76d480b089bf39"},
	{"pasta", "8432fc58a6f62c30ccc6bd63a87511631145f601e5cf6fec03feb899c6c598b", "7099917997d656383fd8"},
	{"pasta", "aedca841c1a9206706513f3708245a173655131aeb080d53942907ad0d402ac", "28e0028228622101289400000000000000000000000000000000000000000000"},
	{"pasta", "3ee227b6678275cbab0d07f8c7a88ba1509007540edbb831e0ab05d0b94a5b54", "bace039e2960863ff9"},
	{"pasta", "1c2697ca7eab2f863a6a694ea939a5a2baf9e07c1a5a0f91e2a7c833de2d0520", "1d3428429a6324a0"},
	{"pasta", "19771edb75fd4c37e9247d37be61fa9d82977364bfe55ce26226c9dcb3f88f08", "69e18de0968b35"},
	{"pasta", "ce9b0b526c3332636f87e7c368edaa4aed94919f2d1980f3d40e7d9650e2095", "388c36888e345b00000000000000000000000000000000000000000000000000"},
	{"pasta", "21485fa32d642f19c9eb4cc5472091b75e20c012075ebcf0fad4cb2008b1c42e", "b6e3f5cc0b3f"},
	{"pasta", "1fe05cb4402ef8fac130d88c752a0eff1f5b3db42c0235857034bfd68fa0ba75", "42332fe0a6"},
	{"pasta", "1b57c6a3deab2cfc5b69a0d5d6d7bb45851560ae4dcf0b60bd2ec09b0486e92d", "b6a69baf"},
	{"pasta", "1061d24caad30fc0c656572bc3607ce30481bfba5106eac01425bcca0f6de942", "32cd0f7100000000000000000000000000000000000000000000000000000000"},
	{"pasta", "38d8b077efaaca4e675cfeccd062b38136b8c8e67a71f447abf1b9ded2f680d0", "9ef9f1"},
	{"pasta", "473f4a1ee26daa6378ae974a6f85e4ddd774caefb529b98e177f9ad4dfadd1c", "8d6"},
	{"pasta", "2cecfc2240b497f5f187c3c70d8d8e7f583adf1a3d3e05d1e3892f14d8c20fc9", "200000000"},
	{"pasta", "1533b85f6737ca20bbc24b41f315045824bcb5aa15de5099d3509fd3171c7eb7", "1ffffffff"},
	{"pasta", "32d572ede77df38f1d32bb7af8a75e9d414b4d0593a999f665923033e6c24a24", "8000000000000000"},
	{"pasta", "3ccbcc9841669b01eaba4d703cde8c5277c386ac6610f75bb44fe823fe2c8e58", "7fffffffffffffff"},
	{"pasta", "35d218a40eb3607108d5ef2cadc4053b6887b18a6cf206dec46e568501fb710e", "80000000000000000000000000000000"},
	{"pasta", "34a109b6da53c45c402b5f79a7162a261380bd63e072b9dc469176188700c3f7", "7fffffffffffffffffffffffffffffff"},
	{"pasta", "27adfa3fd415caef658b2426bc6b52c40c484d7e262eaa6815c9086d0aeedfc9", "ffffffffffffffffffffffffffffffff"},
	{"pasta", "29f17c614b4dff7839476d67bdde3456cdcf37049788a27a6e269709c175f581", "200000000000000000000000000000000"},
	{"pasta", "19f3e001b38728ee8252b1fe368146cd9bb11fc1699b8345eaba23a71bbcbf56", "800000000000000000000000000000000000000000000000"},
	{"pasta", "3eb008bb26da7e92748cc154dc91ef7fdae4bcf07f860bbf06f051917186dfcd", "2000000000000000000000000000000000000000000000000"},
	{"pasta", "925e656886e0ec6346aaf142d185fdb239aeed9ecda28bdc38804e35a4a87b1", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"pasta", "209a1fd75ade3a5d58f3a1ad15a85efadf1c7a9012f7974c1cd5de8ef121a6c5", "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},
	{"pasta", "36b3a4d9285345abafd5dac4b71f1e7bd51ca9eee8d6fe07453e6835b87e4cab", "1000000000000000000000000000000000000000000000000000000000000000"},
}
