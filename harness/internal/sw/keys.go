package sw

// keys are private keys of public keys with leading zero bytes (found by search): curve, d.
var keys = [][2]string{
	{"secp256k1", "c33b0a367efd36e1ae1603d9df8c82194a5c0133efaaf85f8d37d220a8deecca"},
	{"secp256k1", "cebb0d593c7091f4c9bacfc99ff540d94f01a26ea09cf0b2ceca306a8eb91d1a"},
	{"secp256k1", "e6a7df29c35a908a133c71db77ab58c250a9e6202d83d90fd2facbd75874c9b8"},
	{"secp256k1", "64ad6a2c543affb7c4c27db5b58603b16d0f84c22656e3155817672cad602219"},
	{"secp256k1", "58983ba9c81de161e3ed3a147782444eddda30e3c2180fa737260aea83cf94a2"},
	{"secp256k1", "4c125cd546dd8bdf396ace7cc132d6b56e11d260432398bf3a4dbdc7a09e457b"},
	{"secp256k1", "24766b0f30aec8282961a33fbbc231008301ae1eb1a3cd344f73cc9db163d43b"},
	{"secp256k1", "74ef459eb2588b3ebd78283e12a511c6c2ff61d52c6955b01f928785cbaf9b0f"},
	{"secp256k1", "8080505703ae9f537cdb012b13be356657d7c841415799308c14815d45e1e09e"},
	{"secp256k1", "71b2d2d95d332c079b160070e3b21d8e38b15a8460aa3513e84f1aa2e31a8f3a"},
	{"secp256k1", "be31ac11f6a50b5ad396e183b9390f2a8a18e71beeac8e5b7b746736fd736867"},
	{"secp256k1", "522d203ff8862d8f9225ebf08193a246aa285e623a638fb90de24e9888dc8198"},
	{"secp256k1", "135b7ee11c46601feec157ddb4b09253e1da0a9d6ecb914885f3d9ce2a41c22d"},
	{"secp256k1", "b058e1b88b377f5391eb74b6d7cb02a581d650054c093c2e5835f46a343021d4"},
	{"secp256k1", "889b8baed95ecd65b2945aa7c705fa7524e837e666d7ce7b7c64b5846348eb5e"},
	{"secp256k1", "526633f832497a9563d344e78935483029972d1043be0abfcb898d126e6d18e5"},
	{"secp256k1", "2442fc0b2106896d06b6b40467547c89dabe504a01fdc589c5630389b4c67167"},
	{"secp256k1", "c12f42744067904725decb5de50ff1783bc5ef19e580d5f6992fdf05fabcd877"},
	{"secp256k1", "6393886b2d5a7022f70ea059339f6eb66298409b67889dbb445ce847c6982567"},
	{"secp256k1", "9dd617f676a3e22da688b915ca04f6abd822b4d82c3fe33f5ecb12db0d052e40"},
	{"secp256k1", "5ca9ca532d0d150cc585c90eb3e417e82dceb9ec47fb503be56f10d210954856"},
	{"secp256k1", "dc778e0862ddbd5b7691251d27af2b2e8cbcf2b403d3c9ad55f9f2cb4b058805"},
	{"secp256k1", "f5c4cc1641d4769a6c17d162a666ff4467a20bba4de261cb5b3d0c3e5fcf36a9"},
	{"secp256r1", "bcc8409c13a01c588837fef01ef6b41994c944e5a8dcc32193befd41921dbb26"},
	{"secp256r1", "9c7bed8f3e0b5136003ab9ce28c21269e4847c2efbb6102a7f7b01ba26b27515"},
	{"secp256r1", "4f66da9862ee62fee777d33fd97346dbace6fc97503db19c9982fad9cd54a8c9"},
	{"secp256r1", "6445fdf6ae200a244312b203811e704f644368425313eef45368481b4dea5736"},
	{"secp256r1", "059652361451e7ebd45c9d8fb353b85fdb5164dee3b43f70349c6c5527d5643f"},
	{"secp256r1", "79a5e96d92f69d7141a48580d6453ec052628642361a1c45cb8bfc2aa3544a8b"},
	{"secp256r1", "f370db8f37b83fa3f770f55ea7a93d2a5c012eee2e5dc0b1066ed48c53f3cc0a"},
	{"secp256r1", "ddb5eb36ef651375cc6d4a59b6277999b11b3a80783dbd2d2e4f1bc418562ac9"},
	{"secp256r1", "cc74881e7f33a0d42336cf412afe2f280db3525f85b135208f28e98877678b43"},
	{"secp256r1", "dbb7214a8e46e02e51f8fb2cc6129fcaf8977b44f06019b73c178670f4ea005e"},
	{"secp256r1", "d8c5539aaee0ac81b959bbe287b908b341f619617a63af6c28ba16b6c202046b"},
	{"secp256r1", "6e8226e473a266fde527a4a5f64f9a9f8fc59f931c94b5309c766542acfb30f5"},
	{"secp256r1", "8b17a650432be85310a8cd8937a666bc2b05c5d92439b2d619901010d3b7e992"},
	{"secp256r1", "0b993d8728c941ab82ba684f2958597c17391ce7aece57aa1eeae3e11f5a1fe8"},
	{"secp256r1", "04e84fccda9090133fc862da529f1b1d1dba1083244a3f691f667c4c51e5b1c0"},
	{"secp256r1", "c7870d48b92d4de4da293d54c15788ac908293979fbc146c4993b21de18cd24c"},
	{"secp256r1", "232b41e0b3fda0469aab99b29e09a3fdca8a7454a78c133ba1bdeb4e6f8d3e18"},
	{"secp256r1", "2259b4fe859e1360606e888385a1bd5d9b48b96969a869219e85326ec0488b3a"},
	{"secp256r1", "329f6d4c3d3773a9fe05a68d731782b8d25dc5c28d4359f0ca679ea4c6349731"},
	{"secp256r1", "4545e4fc783ed30c69d25e0fe2a137976beb5c80f74371d2a645ad0367881d13"},
	{"secp256r1", "fd564dca545fd1023410f41d82d990c65bdc5aa26d95e6c2f1201ae4945cdd74"},
	{"secp256r1", "1cd800e0c74a20e294110ddbdd8974b6f711dd665058a68918536a19d6d0a1b0"},
	{"secp256r1", "a4c5cbfd68896feb59efa5c13603481287fd95cf45689df88869d88722d2b504"},
	{"secp256r1", "2f6ef68e47e2b14e94849b2d16991838648144058796b3e6a735f780aaed8aaa"},
	{"sm2", "5916fbefba586c786cf5170fbc2dc6cf2aa7648c8e39a1b8da41718c000fd353"},
	{"sm2", "84b7098e3d42cc189f9d536f06a5f7a71e0efc2e10c3cf1f3affffc400822984"},
	{"sm2", "e6f28eb7ab233051b152ff0564c1a455c40dd9a4a463c975b83d0fa547b9cfeb"},
	{"sm2", "bd2012d02dff0ddbc64e4f0a3a640015e337bb697b90b9aae489e350fc0b312e"},
	{"sm2", "ead7dda90331d95f691c532c603c5399ce50876c88e3f1e97a190d6ef5827073"},
	{"sm2", "7b3b555ca18c6242146d84c5fe8e6ab3e06c3e872579b55053b9da313ba57c7a"},
	{"sm2", "1bf5b59bb1c068302b68b8b0abe20dfcc6b1850e445871414772ab9d8fe24ee6"},
	{"sm2", "f4e3993933cce2055f1203e93a5d0d4198e8bd2bc37fa307eac1fe12e9f00436"},
	{"sm2", "0a013cb8140600d25977e1cbc49683641b850884c17436ebd8feb23f34312d69"},
	{"sm2", "be8194f1f070ded7dda1c75ad26496335f4eb58acba74d8823b6de35d2ad398b"},
	{"sm2", "3c4ceac6b744f98480534a7493109f951efaf46886da0c5fcd5c9a5c72f67af7"},
	{"sm2", "34d929abbd19e65150bd67fb425c29cbe9c04a267c486d5710354df25adc11f4"},
	{"sm2", "4d01a546da9640a71b4184d667ad9fc297068a622e6ed0c345220009cab029c6"},
	{"sm2", "edd5d38c1814656cdb6268a89ba85968443f9710a58f145774a7bcae68234a7c"},
	{"sm2", "2e05de4ef6460318a5fb7c9a7b609b240db2c0f85a80c4c2a7de7204d9a1ec6e"},
	{"sm2", "4f8305a02f2c94cd64f3e06f56f4087673c51d23745199179f4e01ef85fb4b5f"},
	{"sm2", "5cbcb5a5ac6660e3ad17866b171491aa52e4b7b87091b27280b765d515259ce1"},
	{"sm2", "33c114f652f3fc3231364d277f7ae71ff80241b17d7d0834a7c523f56e7bf9b6"},
	{"sm2", "97e011fc525eb52239892d1d5129705cfcb4555d4745fd460f6ef324cde557ac"},
	{"sm2", "29d543ec98cd992c59a1e3304964cf1c11efede27b183a86ebcbba26cff6e6fa"},
	{"sm2", "cff53562a07ee083d2cf565788cbeeea5ef869b1759cd3af3c16fb7a0d42b1eb"},
	{"sm2", "ce2eb37f4ac70333054297c5ccfb7c32f160b5ab9de72f80a84aaa6c8fd62bd7"},
	{"sm2", "c51093c0531a60a2c2c4a80e6b37d703bce1c31dd81aad13d714b43dfb705f56"},
	{"sm2", "d96f5456354e53be37e6b4b1a39414b2b618f796ba6c0d00acceadb89b356f3e"},
	{"pasta", "3705181ffcfcde271e641b1817105e8bdc719c6fe2134e615cd4b4705e981c5d"},
	{"pasta", "29d18e1abb75475a6015bd7a6c14b4f6349cefbb2e37dc41f4d0c693c4d2c608"},
	{"pasta", "09b961db10372c249a391c7786648b489cf09747cc8da113a04914aea2534d80"},
	{"pasta", "3bf1f86c43e2bf8097a6dda25d74fbfa4db498b4bde001f7b5dc1188362d1b3c"},
	{"pasta", "04f66b830f8a4bd544af0287eae417333832b9be2c8f87e183a282cfe927a71e"},
	{"pasta", "1acca392d93e86cdd4ab26a2b45bd348368a3a6699afc0ce830c03877f517628"},
	{"pasta", "37fa6a2b7ecaabc062cd08567b51bffcb5737e11559b0b37930839590f155fe7"},
	{"pasta", "3e3ae02d13fdf9c84c28489f3d3326016deebee97cd2079df2cc9785ca48f910"},
	{"pasta", "17714efd18b8fff1395c3c8c88041d9f515d7cdac5bbc588bb024ca17264d4ce"},
	{"pasta", "1f2979c286b66f112e6aa48e5f4773d6c6c1589a06420606e0d9cf7c3365fc04"},
	{"pasta", "1b9393c543a3d6dabdc792ad75f34781a2eda2e104d04569bfcba3123409a849"},
	{"pasta", "18b2ad7ede7aa98cb992ffec31038d79bb2991e36fd4163eaa8e7076c09ee5d7"},
	{"pasta", "2d40a76e3254bc45214ad294a2c662e52d7dfe5ab51b96ad0aa8b1c9ddd46b80"},
	{"pasta", "0b293be457bd2d5f3994d2ce5415781f234ad6b72be57df97b6915ca70028908"},
	{"pasta", "092d8a92096a4acac8627eaec79b33eb7bca288f7e0140f61f1a7a0718a1dc9f"},
	{"pasta", "3f48f89ea56eda8ab7b7b28880bc4a7cf9025583b96d6092ce6197ef4e1a808d"},
	{"pasta", "031b9edfa4af5a58464c31465617a4a4ea1ac3efd4dda7f4713910b38b0e28a9"},
	{"pasta", "3a361307545d1a566e5cda3d54b9f2c0628137c95cbc818a88b2c548d8080dfd"},
	{"pasta", "1273ce8bc79867c589f15d22c2eaca1ea5c2b2f03fa6c8c98f649f42746053de"},
	{"pasta", "30f2c6e044ebbcf696fc7b21c803fdd1c4c9901540c6ebadefaef0ee698bb2e0"},
	{"pasta", "281c695da8baef4968f43e9d53e66d6b1ca51475fedc7120e444a0e942128c7f"},
	{"pasta", "3934c79afe631b695c34637398c3f878439fc829de1d90a5ab8329ca8b601999"},
	{"pasta", "3ed08940bbc4d47039365fa74085a53926519a25af00ec087b33369bfd299399"},
	{"pasta", "1ce1562b24372cb1955344b98985eb3c537ead4bc48bad2d1c54839f6f63f3f1"},
}
