//! Digests of long messages: 1 MiB (byte i is i ^ i>>8 ^ i>>16) again and again.
//! Made with Python's hashlib: length, SHA-256, SHA-512, HMAC-SHA-256 with the key "key".
pub const HUGE: &[(u64, &str, &str, &str)] = &[
    (16375, "9b11644c972b05b4cac3abb684047334f3cb20defd9a1c5263887574384648f6", "cd02ebc09120f0817b7411d22e30c248032f566f6278f9e87a5a6a43f9e87b624e6b330409e68a714b6c4909440ae788e01d63ec8b767f84be46a3990f1035d1", "af87b77956d6ca98a8ad36b24903e2b2c1f4f94efcc4d11fb537fc0c8d8f1266"),
    (16384, "5ed50de188f53b0342fef76094894727ba124322610b6b9f7a43e09ec785aeb2", "e607005018f89fb645098fa1695f41b5df85cd6e60795abe69ef539d86eea4b4e1bc4be3f3fe495ca63984901415f98dbc3f8c1ed30aeb917171fa8beacc1453", "e56c73dbabcc79c44b50070d42f35500584ac0b7a4a655532d3f743d05c3ddb5"),
    (16389, "9baee7470ce0278f0da3052637344e326ed461061b431f32ba705a1aea14e964", "83852a76b6deb0dc236725a45428090b2677e9beddf1f9b442f874f91cfeb18b47ad3f9c09799334da17f205f9cbb8beae87edea865f3d0cca4252e226bfe603", "946f06d6fbf27baae7f2461abf3fec41e8217ac740fbcc60ad1b3731bc317e48"),
    (32759, "f7be26983f3d4d1dd1ab72a75bbee0f556dc5f078c66b294bc4ffe900c630389", "cc3ceee27e58b34c2f319c3f65095944113dcb6eb453e61e349b8bfbf03ad5af5d2937df5b8e8d3dbcb7db430722c3274c36b9f52a3b5b681868d1961c30d962", "5781778c277c5fd01cf130b6371956a2a498ea058a2ebd51c4abe57bc2bf7da5"),
    (32768, "8b16fec9d2a8c48be47789a462c2d4b3d9be75ec91310607ec5fb5e180982ed5", "371eec12edac3cb7cdd3aa546d6ee1f48ad62b9b139a53b3620e9867be92e91b17ffe049de5af57f1eaa7781f71975818ded0b368e34e4f98150f5548dd49448", "c09c23d1941cbc3b8d6aeeaa0f2df5222df9f4cec3eaa7028550ae64c7804e49"),
    (32773, "73b833294fe2aa8fd954833db58c900c0f7d7dd1412836606f933048836f6262", "182ee3afa5e6886557af8031ae94324d5d6ad373fdc6841409ecd1d676e676d544f4de02c1d67ba9a57538ec2d3547c0b430361bb4448c1f8a24608661874c14", "4bae42beb26ac20e6c437b6d18e17f46d50d6697cecf88321adcb63fc1ef06fa"),
    (65527, "f1cd7f1717775897c15e2e95090408b3f554b8bf82116c8c69f228683029fad9", "6e62768117f59a775b4082ef08ebb063514b6761a4d7d55691ba74feb207909e5fb2781c760781330039ef964d3e9757bcb691c479ac3ba2265ef7e128eba7cd", "1e3de2212511703e8239cd616f20823863cd83481df2e18ca190a94e1f3d1f36"),
    (65536, "f0a3a4299328c597af0b56eaec469cd984b24aea6b5af3cfaa321e63e76d7033", "494fcb18568025c08459633c2c9d68d87bbc130f17f10ce714848426e5e1923f5e755df71a6122443b41c4340b994d592792c42fd250b976ce792a1f1fe6345b", "1b1cff8eecdb939bdb812c894c50d9d03bad340c16dc3ff717f071cf24342a99"),
    (65541, "741a24fdb6155f2b99533f997671158a0536a04ae53443eebf5b66dd856a802b", "51f4b2dbf5c7b01f64a9af1ec87ad987a8d9cd4c1703f9a56e3c4f29ce3bbf68036e13e17e206b3b4648cb6a059436db369a7c7e4cb3ccaec674559394030314", "641b2f944a3748ac4e8f1da6572a0129c51f90e0cb1046c5632a2d40c50f5b19"),
    (131063, "b18cc9ec7a5e7cd96af7833776430d382e9d0e3cd50ab6d9adf52543e0aee998", "e481a64d4a03e188eb186fe6fb3a3d9feff0b548d21f62b247916306c0dee5890f304351495b91f64c5278f3b864520efdfb07ba98ccfe751944948c7034a7a4", "366d0a4676c03600c1df82423a40ce298542df90dd0dc737627a39fd0fbca2a9"),
    (131072, "23a05378f394680c917ed64df6f805154e10ef6bf692595c3fee99802b3285e1", "22e1c7bd3d08496ce9255c1217e61c6a4a57eef863b12f9b9056087c4003068ddc949d2da0820b862594bd94a78adde4fab8654eff40a8659163d3fc0717e0b5", "4e0620fd4001e0aa6e174c99946b68985e4556f4f35c11817c62b0d1c782b493"),
    (131077, "34e7040435b73a9226271d613cca3890ab341d365800e68e30d4d587566fa6bc", "e42eedcdb9bad69328160b3a4ae13f1c9f00d85f86ee6b77a3d1fa4d3402783d2f320fa67316ca8b0eb37bb31c1b355e9c9745d914bcadf21780f5e4ac6b371a", "92c5f7326175efff9222c203cc749095dc410a50f4de50e8d5e8494621323e0f"),
    (262135, "07f1049d8600bac550685b65bc5e3e3c60a92eb1e5da958144a39a847e9e0127", "2616879b55efcec510856b533d5be478fe2abaef257b9bd36d77cf6b2887af54013d3448536a42750dd88282bba1e4b7956c0180cadc9a87b417c26c7f59d9de", "d954c78f43b9ae9ec513a8669cc4ad30dc793f7b18be57f949515a25b2d33a40"),
    (262144, "2ae218fe54b5ad02c513fd5b6978a86a990e8ea43e8079b4231a772c616bf474", "e87e014fe607f42b8121f51ab5075984e2a93887e609bd913625ce81811264db8b89e9c41afd8f2d422fbfe77383d6e6eb907b736fdacb01807ecc3026805451", "4cd08a72c241f9c80292d82c77cebc496270d19aa4e7bdb371134d9e195fb44e"),
    (262149, "b423858dab8fe81528822f28a9f58a6cdbd954361c72e4c06d1d49f84088793e", "4eaa0cf6daddeb4065dbd3c63b753eb400f7eff8caf7bbd9ed112451f9071e1dd1cb25553238cfb5f7b74369ed10865dffdf4d7a59c67f525021db00d940878a", "0433c210a46dcf85f0c7594c5bd0beab001e621e7622f2e7f49621fba57ce2af"),
    (524279, "f97b6a8569959f71b83d3c871c8788cb57210f3b821adfed80ed323a475427cb", "c6d454b41e3622617560df9b092fae1865532c5253ad5562555f8333b89cff6b213b56188eec44eb610397eaaed66ec9767143cb05531593cf57ecb5d4981a1d", "46d398a2e28bcabf18271bad26b5dfd964249ae90deddc82e92b9c65f0ef8682"),
    (524288, "9aee50b8b6e9ee073b6053fd0262867baaf3b4176951cea7e93447500933e621", "01bfbcefa9967f0fa8401cb07f5a6a9f6524bcbd0ba5e0d624b895a8688fd8ab91df08c9aad74d1873ad9849e53ffaa109811ae8dc3dacaf1db4fa73d801e546", "4f05a08b8e78eafb98e303a3cd4a3c1959c28533237753a8aeb2652fa51ac828"),
    (524293, "ab3ddd96ab8436ff05fd0c5d5d281bfb33265608a8be4bd7b24a3d2fc1a51bd1", "1e5af23e89c1e27efa6789e364a908de0d9597ff5c8b611a72ecd8f20f8fbe38c9617fad293667a048f73bc4a07718bb01b7f85be1db18e4506d06be2e339878", "4d932b3e0ef46114d3fcc938ca0ecfa2efc8b639d87feae7ffb02b7a80d65152"),
    (1048567, "f68f1990150b1e51061270d840fb8198c0dbf0589104d52ae5b772d03c9b125c", "5a4f789e3c5a53a8d24b6458bc9d18fb20fb9813726b6915dce6e3b065660ac65cf2ade98755a64cd0884e8444b0c6f7ba23c8a3697d68d380f415801c7d2acb", "e7961d0c0f012d011c8e144385d75f47255f69c19f15b289fc329c8b78b3ddac"),
    (1048576, "9a058339229372b03c3b56553873e3681bb2ec068f7b9f08d7d6c9dd93157cbd", "828090fb52d1d515aa5324e66ba4e6cbe318729f6a704658a9ee037e854106945b8ae114548e1534b889a6c0bc569ef3dbd30677cf01d5374d9048a6860b6605", "3efea9a0c0c8d0fd546f1afc07232ed7527ddf23dc0a80304d0084e13970157f"),
    (1048581, "b4ed66debebe12e949aa094c74f548f87df2083732a9e28ee5081bd22fd74632", "500a277f5ecbb9dff34191af0979f5a838e8e3ee77472173fee41a5a416a02e1f71f103e9e0a17183821a0fbc9027aba2f7bd08eb5120db4b7a11f002e20a6b6", "f4a06ab283bb81c66d7af518920f94e77144477001ba2d6133eec19f707538f2"),
    (2097143, "56207f25e0e2ebb70a8bae2f38f752728f21a7bcd0e0b40344b67be46acd7736", "9bb11613de35bfb5c2301f91d9c85db9f902a0956c76a86874e8875fc6421df0f9e071167de87e36c57c17bdce95b7769e49481923f679c24c7dc11d06a7bd64", "4acb877d725be55e024a9d5988368b62bbadd5e96fe10c2a6fb8d5890d85027c"),
    (2097152, "d688560515901a4455b199ed5320af3ebe2dde6fc543746f6e2544e7b09dabf8", "13608ef89be17abc2aa3e4eb1a640f5820b0f33b35ed7cbbc411e2b67ea708f2f1443a48b8b33fd2f0cb5425819b193f4aebea492ad2f4990384b48e453725e1", "41b75d1bbb5b2d8040208404e355dd6d7c87f092a240cc81dbc2524e34056340"),
    (2097157, "4822e32153f12692e263aaf166f914853df8e48bed403b0943c65ffc6c550fbb", "ab91c171010bd5147be0899e6e2cb913015de58326cbd4b36931555537e4b8a1f95e4bfed39cb8db636c792114eeb06a976c12104a2045444a1e809ee2bf9b78", "335a39cf8bdb285354eafbf4c2706acfef0b2d7261990633c36ef8dabe1cfc2f"),
    (4194295, "4b2c4ff6c99864cdd76ce66ea9c8d4e01d986dcec6d73d3a3070204fc763dfa8", "6d75825b6e39be9fff788d3c99a67849ac082faac50c4de585b9f5c73e1fac5318d919e5aaa44bf1cf65ff3fc05c40c4d321b805afdb1b84f816396c033b9e4c", "25ffe8dad43ab8b3143634002deafa0783a1df28cd14cc7bc5c398d16986be42"),
    (4194304, "e5ea59bf6289cf6d6e0fe51bc72b3f392882bca81660e2083a11a973cde28168", "d40ab24faa8633830a3f1774072809c0537280344411aba466eeb090d770c70bb7196ad037aac2dc9c45c8052820760f752692163348d0f6ad935e1c04e0f861", "ae88c525aa6b65d156f5672c06b0c994093b324fbb338203c92830132fb611cc"),
    (4194309, "cd6db0558aee7bf67eb7637a587f3d16ac03b50154e048d81a6d727d7859af38", "1ddd3287e324bb88ed35edd434bdb658559c0c0227afd17c470e754257d7f34e5f86a686489265ce91b94065c12c3515f1773d0ff4784d812ea5cdd4e5bba005", "d33a2d736d6a745d9e4806deeece4b9b2edb50c89d1797c3e4af0d920469fb7b"),
    (8388599, "ceb7ee3754d0dce0e25a5d160aa94eec7bb930a61cff5b076d6bafacb1a075dc", "3d2dcf5d3bf3c8ae5a2ac1ca1c05d0a19a5651918aad2f9133f278bc8b540c143cb36cd9fd425b7b8ba26478802263e35bd8e131428494c59a6548755ac99fe3", "ddbbac5d5dcea8630d777250656577038cace908ae9bb364cc44a23906de95b2"),
    (8388608, "137aa8497ebbce55cdf4829d9437570ad29d88a86d74580cb9ef2925c20b3526", "85b6acfe15c362bc13ff0dc2c869ef90f99177e7847094363babc63eea7ebd0b643ba071ff13ced4bdd0d858ffd7bacfb2ff6d5bd7b0ec8a959bb9d1bbe49ea7", "2ef82cf9b83d8fca63190fb76e01e4064f69e3426409ddf05a280ecf2c7a9a15"),
    (8388613, "21f93f86515149a964aa2fa33202b6f399236d600517239da29ce4d3d27a3e78", "4b80bf452db3af542512f27abfb77901fa2bc9619ee85359dabe3fbe1e41f4e3d604b86638788952c66042bd9f808791b64efd87a9156d6f535a3cf5af9de686", "cc267ee7518b41e0a50c2b1179d7358afcc66f81c785a7608c0533eb6ec86545"),
    (16777207, "a38c7be047c78bc141f43e7d375fa594482facea687c75c0fa391dc9dce40ff4", "a43ea172e1e0ea52080a934958d899608aad3a8a640067d5129edf875422159b4c645af6a0192485873bb1bb176e9619d8c7cb8095c6e605a7aa06dce8fc86ad", "56810dce91c1cf4364542db4c03aec06cc91733150d93c219ec99de42e9f25ed"),
    (16777216, "4f94d568b5d58836e104719354ce10d88145d8051ce92e724bf81e6efe089180", "edb7b1a2baabbaabc73de02e12d4ada6d3d098aada9a84b15ba3f0505680ce7311cffd7e3b2fbe40ebf52b402a25d921a611b185de9b2756db5a9d28d46578c6", "943ead2d1195a3076aee3bd2c404df4fd8932ada08d2cdf5ab0b972793e48819"),
    (16777221, "e1a0ae1446b69a7798fc57f2a5d9fcf6e49866ef59e7f1b81ed0379e5e10da8e", "4ab3dd1466c96a7527e67606b98d164931de7eca73a9d842fd18e1de614bc13a053b9236fdfa44809d2cfacf3d27f87ba69669614a55557b50301cab341e33d3", "41bc46c10f0d09087d55868f921601ce883b39b764d32e90ef64227b5b6b18e4"),
    (33554423, "3ca915d3b17755992ce8fea8820c9c43ed062249fb210abd1b726f00b8273d2f", "7f1ea2e0d041c8a48c4b22d09f9acada5c82f563cab3d6adc27965624ef2c7a0576b75908a0eaf1af5d2a9623fa765c5013a07df8d08a592f50a7ab54f8ec266", "3f0ee657d4d9a25b8d97926baff96e1e42ad6521f8b0d6c29b0900386097fd06"),
    (33554432, "897e9024da921029695b85f372f6a2900534833cf9b1c7d47705b3e4afe1f34d", "3c909304f3b718831b80c12db98ee799ffd899346cb3378aacbb52159d526c1b3f1f14bb0e42bb6b382a73b0a0b50636497473ee30ad43e3d01b33da0d981ec2", "fbd695633a0a864b6ef7fdcba58a5ebb96a9afa14c4492633c972fc96424c0a7"),
    (33554437, "f94de4c22de762759f43616efee442c05e0cc2a82482f0d096b46ef5f1288fb0", "21acff36e7854dfa0d1d0198228d4e91abd4505c6001b4f82aaf3cdf53a17455d29dac2cad50dbc2935a7ef277d20697ae51ddf44d4d7429bb64d44bec15d24f", "7b14abf38c972468fecf50c8a33948c6bb8d513c35a164b9171c8506c927ffd6"),
    (67108855, "f06880c92f0729b67aacc8988f1fc423a512880d35717f91a96ca28ad9fbf518", "f39f379ab6fb754141b519e20752ba8d8754b5cb5747c693b6414af9399a314e0755496d278683364e000b2ef7ba5e638007205ffa3da96ca95d91ed13865012", "6bc855ebda89f73d6381f62182e1b5b68df968bdcc0f28a60c7d1f5af626302b"),
    (67108864, "5fc2d17b33b985bab682274d5861213543c859a06c82697eec09df2e1213c951", "83c1e620d0edf97af126a64f91714132cfe10cce6c64d9ceb6a072c3898eecbbe429127394496347bee809cb49ae011dc7137317f5915e39ea11a228d6318c24", "1b502b614ec2402220c3e4d9fa696b6571cd2f553895dc758746baf0e3a37ff8"),
    (67108869, "4ca97e9b4c59db40deb304255b69f954844619077c9926da2af73edf113b5d8c", "10037e5788a9e2b8b7c07ede708dd36c9897566d80214aaf0836f9366e590ebfc75e23f983082b174b19cc8990a1c5535a91d81b4f6143cdda6b482f3f4fcbb6", "71c56abf460409abccf53c4e7a77846620adec64af3bc5fca681f27f03c0a6d4"),
    (536870919, "da3c770fd5d347f61837335566d225aeca84e562ee6fbd5e4154bae929ad4a20", "a65fd13018b3d2ef9ec50e44e9056b13e3543f3ee796fdef22c6bb368f29ef0e4421c9c5451bbba39b770375378e747252a6a6135648910df025676758b480c7", "43bbcc3a5997356d3cbdcd457f98698fe95348168d5e3f68546bc05f39c7e121"),
    (536870976, "8c3ca3e791864e4f72d2363ccd4272b7f15bf439ad1e6e2cc07ca0e634c06479", "070d3f1de3b18de003ebc7841cf6305b4e0d3a40ecdcb97b7f51ba5c05810dd883dcc41ef01502aaa5d3dcd767dceb07d77dd28276376adc2a3ed299b5ff7ea6", "f58190b5a763fb8e516ed67b069a6a1d0fc0fd1cd0e88371750804d0e60841de"),
    (536871032, "79988be6ef0873466e9840e983e3117caa08e0c221cb30fea72e121ab5371739", "bfd43583afc0b6ad5192603e05cd8884d84e94821eb74f6284be75036e1212727bd7796234f56578a0724848f6c5198bd0a360f6b0a0ff4cfe31572e2c5f91da", "e6bbbdbc9c9990abc854616c4a72a5d54577b42adfab3b065d0c1ff16fcea9f3"),
    (4294967307, "e87391b80adb09e8d6a25eb91f6f1ef364e5ffe7d248fc5b0b418e3c3e229b4a", "e5068d1e8e1129d8336bd31a1e0c36e9d02d5e4907b220fc3c4dd03dd5ea1e3a5f1f6d514e3553cc3620cc5575c1632a9dc5ffc683ad17f52254b5e6d8859cc3", "0180d052f5321c3a682617ef699e850f6ac4d61225154ea96fe44c69c48cb0fc"),
];
