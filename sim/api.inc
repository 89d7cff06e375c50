X(noise_cipherstate_new_by_id)
X(noise_cipherstate_new_by_name)
X(noise_cipherstate_free)
X(noise_cipherstate_get_cipher_id)
X(noise_cipherstate_get_key_length)
X(noise_cipherstate_get_mac_length)
X(noise_cipherstate_init_key)
X(noise_cipherstate_has_key)
X(noise_cipherstate_encrypt_with_ad)
X(noise_cipherstate_decrypt_with_ad)
X(noise_cipherstate_encrypt)
X(noise_cipherstate_decrypt)
X(noise_cipherstate_set_nonce)
X(noise_cipherstate_get_max_key_length)
X(noise_cipherstate_get_max_mac_length)
X(noise_dhstate_new_by_id)
X(noise_dhstate_new_by_name)
X(noise_dhstate_free)
X(noise_dhstate_get_dh_id)
X(noise_dhstate_get_public_key_length)
X(noise_dhstate_get_private_key_length)
X(noise_dhstate_get_shared_key_length)
X(noise_dhstate_is_ephemeral_only)
X(noise_dhstate_has_keypair)
X(noise_dhstate_has_public_key)
X(noise_dhstate_generate_keypair)
X(noise_dhstate_generate_dependent_keypair)
X(noise_dhstate_set_keypair)
X(noise_dhstate_set_keypair_private)
X(noise_dhstate_get_keypair)
X(noise_dhstate_set_public_key)
X(noise_dhstate_get_public_key)
X(noise_dhstate_set_null_public_key)
X(noise_dhstate_is_null_public_key)
X(noise_dhstate_clear_key)
X(noise_dhstate_calculate)
X(noise_dhstate_copy)
X(noise_dhstate_format_fingerprint)
X(noise_dhstate_get_role)
X(noise_dhstate_set_role)
X(noise_perror)
X(noise_strerror)
X(noise_handshakestate_new_by_id)
X(noise_handshakestate_new_by_name)
X(noise_handshakestate_free)
X(noise_handshakestate_get_role)
X(noise_handshakestate_get_protocol_id)
X(noise_handshakestate_get_local_keypair_dh)
X(noise_handshakestate_get_remote_public_key_dh)
X(noise_handshakestate_get_fixed_ephemeral_dh)
X(noise_handshakestate_get_fixed_hybrid_dh)
X(noise_handshakestate_needs_pre_shared_key)
X(noise_handshakestate_has_pre_shared_key)
X(noise_handshakestate_set_pre_shared_key)
X(noise_handshakestate_set_prologue)
X(noise_handshakestate_needs_local_keypair)
X(noise_handshakestate_has_local_keypair)
X(noise_handshakestate_needs_remote_public_key)
X(noise_handshakestate_has_remote_public_key)
X(noise_handshakestate_start)
X(noise_handshakestate_fallback)
X(noise_handshakestate_fallback_to)
X(noise_handshakestate_get_action)
X(noise_handshakestate_write_message)
X(noise_handshakestate_read_message)
X(noise_handshakestate_split)
X(noise_handshakestate_get_handshake_hash)
X(noise_hashstate_new_by_id)
X(noise_hashstate_new_by_name)
X(noise_hashstate_free)
X(noise_hashstate_get_hash_id)
X(noise_hashstate_get_hash_length)
X(noise_hashstate_get_block_length)
X(noise_hashstate_reset)
X(noise_hashstate_update)
X(noise_hashstate_finalize)
X(noise_hashstate_hash_one)
X(noise_hashstate_hash_two)
X(noise_hashstate_hkdf)
X(noise_hashstate_pbkdf2)
X(noise_hashstate_get_max_hash_length)
X(noise_hashstate_get_max_block_length)
X(noise_name_to_id)
X(noise_id_to_name)
X(noise_protocol_name_to_id)
X(noise_protocol_id_to_name)
X(noise_randstate_new)
X(noise_randstate_free)
X(noise_randstate_reseed)
X(noise_randstate_generate)
X(noise_randstate_pad)
X(noise_randstate_generate_simple)
X(noise_signstate_new_by_id)
X(noise_signstate_new_by_name)
X(noise_signstate_free)
X(noise_signstate_get_sign_id)
X(noise_signstate_get_public_key_length)
X(noise_signstate_get_private_key_length)
X(noise_signstate_get_signature_length)
X(noise_signstate_has_keypair)
X(noise_signstate_has_public_key)
X(noise_signstate_generate_keypair)
X(noise_signstate_set_keypair)
X(noise_signstate_set_keypair_private)
X(noise_signstate_get_keypair)
X(noise_signstate_set_public_key)
X(noise_signstate_get_public_key)
X(noise_signstate_clear_key)
X(noise_signstate_sign)
X(noise_signstate_verify)
X(noise_signstate_copy)
X(noise_signstate_format_fingerprint)
X(noise_signstate_get_max_key_length)
X(noise_signstate_get_max_signature_length)
X(noise_symmetricstate_new_by_id)
X(noise_symmetricstate_new_by_name)
X(noise_symmetricstate_free)
X(noise_symmetricstate_get_protocol_id)
X(noise_symmetricstate_mix_key)
X(noise_symmetricstate_mix_hash)
X(noise_symmetricstate_encrypt_and_hash)
X(noise_symmetricstate_decrypt_and_hash)
X(noise_symmetricstate_get_mac_length)
X(noise_symmetricstate_split)
X(noise_init)
X(noise_new_object)
X(noise_free)
X(noise_clean)
X(noise_is_equal)
X(noise_is_zero)
X(noise_format_fingerprint)
X(Noise_Certificate_new)
X(Noise_Certificate_free)
X(Noise_Certificate_write)
X(Noise_Certificate_read)
X(Noise_Certificate_clear_version)
X(Noise_Certificate_has_version)
X(Noise_Certificate_get_version)
X(Noise_Certificate_set_version)
X(Noise_Certificate_clear_subject)
X(Noise_Certificate_has_subject)
X(Noise_Certificate_get_subject)
X(Noise_Certificate_get_new_subject)
X(Noise_Certificate_clear_signatures)
X(Noise_Certificate_has_signatures)
X(Noise_Certificate_count_signatures)
X(Noise_Certificate_get_at_signatures)
X(Noise_Certificate_add_signatures)
X(Noise_Certificate_insert_signatures)
X(Noise_CertificateChain_new)
X(Noise_CertificateChain_free)
X(Noise_CertificateChain_write)
X(Noise_CertificateChain_read)
X(Noise_CertificateChain_clear_certs)
X(Noise_CertificateChain_has_certs)
X(Noise_CertificateChain_count_certs)
X(Noise_CertificateChain_get_at_certs)
X(Noise_CertificateChain_add_certs)
X(Noise_CertificateChain_insert_certs)
X(Noise_SubjectInfo_new)
X(Noise_SubjectInfo_free)
X(Noise_SubjectInfo_write)
X(Noise_SubjectInfo_read)
X(Noise_SubjectInfo_clear_id)
X(Noise_SubjectInfo_has_id)
X(Noise_SubjectInfo_get_id)
X(Noise_SubjectInfo_get_size_id)
X(Noise_SubjectInfo_set_id)
X(Noise_SubjectInfo_clear_name)
X(Noise_SubjectInfo_has_name)
X(Noise_SubjectInfo_get_name)
X(Noise_SubjectInfo_get_size_name)
X(Noise_SubjectInfo_set_name)
X(Noise_SubjectInfo_clear_role)
X(Noise_SubjectInfo_has_role)
X(Noise_SubjectInfo_get_role)
X(Noise_SubjectInfo_get_size_role)
X(Noise_SubjectInfo_set_role)
X(Noise_SubjectInfo_clear_keys)
X(Noise_SubjectInfo_has_keys)
X(Noise_SubjectInfo_count_keys)
X(Noise_SubjectInfo_get_at_keys)
X(Noise_SubjectInfo_add_keys)
X(Noise_SubjectInfo_insert_keys)
X(Noise_SubjectInfo_clear_meta)
X(Noise_SubjectInfo_has_meta)
X(Noise_SubjectInfo_count_meta)
X(Noise_SubjectInfo_get_at_meta)
X(Noise_SubjectInfo_add_meta)
X(Noise_SubjectInfo_insert_meta)
X(Noise_PublicKeyInfo_new)
X(Noise_PublicKeyInfo_free)
X(Noise_PublicKeyInfo_write)
X(Noise_PublicKeyInfo_read)
X(Noise_PublicKeyInfo_clear_algorithm)
X(Noise_PublicKeyInfo_has_algorithm)
X(Noise_PublicKeyInfo_get_algorithm)
X(Noise_PublicKeyInfo_get_size_algorithm)
X(Noise_PublicKeyInfo_set_algorithm)
X(Noise_PublicKeyInfo_clear_key)
X(Noise_PublicKeyInfo_has_key)
X(Noise_PublicKeyInfo_get_key)
X(Noise_PublicKeyInfo_get_size_key)
X(Noise_PublicKeyInfo_set_key)
X(Noise_MetaInfo_new)
X(Noise_MetaInfo_free)
X(Noise_MetaInfo_write)
X(Noise_MetaInfo_read)
X(Noise_MetaInfo_clear_name)
X(Noise_MetaInfo_has_name)
X(Noise_MetaInfo_get_name)
X(Noise_MetaInfo_get_size_name)
X(Noise_MetaInfo_set_name)
X(Noise_MetaInfo_clear_value)
X(Noise_MetaInfo_has_value)
X(Noise_MetaInfo_get_value)
X(Noise_MetaInfo_get_size_value)
X(Noise_MetaInfo_set_value)
X(Noise_Signature_new)
X(Noise_Signature_free)
X(Noise_Signature_write)
X(Noise_Signature_read)
X(Noise_Signature_clear_id)
X(Noise_Signature_has_id)
X(Noise_Signature_get_id)
X(Noise_Signature_get_size_id)
X(Noise_Signature_set_id)
X(Noise_Signature_clear_name)
X(Noise_Signature_has_name)
X(Noise_Signature_get_name)
X(Noise_Signature_get_size_name)
X(Noise_Signature_set_name)
X(Noise_Signature_clear_signing_key)
X(Noise_Signature_has_signing_key)
X(Noise_Signature_get_signing_key)
X(Noise_Signature_get_new_signing_key)
X(Noise_Signature_clear_hash_algorithm)
X(Noise_Signature_has_hash_algorithm)
X(Noise_Signature_get_hash_algorithm)
X(Noise_Signature_get_size_hash_algorithm)
X(Noise_Signature_set_hash_algorithm)
X(Noise_Signature_clear_extra_signed_info)
X(Noise_Signature_has_extra_signed_info)
X(Noise_Signature_get_extra_signed_info)
X(Noise_Signature_get_new_extra_signed_info)
X(Noise_Signature_clear_signature)
X(Noise_Signature_has_signature)
X(Noise_Signature_get_signature)
X(Noise_Signature_get_size_signature)
X(Noise_Signature_set_signature)
X(Noise_ExtraSignedInfo_new)
X(Noise_ExtraSignedInfo_free)
X(Noise_ExtraSignedInfo_write)
X(Noise_ExtraSignedInfo_read)
X(Noise_ExtraSignedInfo_clear_nonce)
X(Noise_ExtraSignedInfo_has_nonce)
X(Noise_ExtraSignedInfo_get_nonce)
X(Noise_ExtraSignedInfo_get_size_nonce)
X(Noise_ExtraSignedInfo_set_nonce)
X(Noise_ExtraSignedInfo_clear_valid_from)
X(Noise_ExtraSignedInfo_has_valid_from)
X(Noise_ExtraSignedInfo_get_valid_from)
X(Noise_ExtraSignedInfo_get_size_valid_from)
X(Noise_ExtraSignedInfo_set_valid_from)
X(Noise_ExtraSignedInfo_clear_valid_to)
X(Noise_ExtraSignedInfo_has_valid_to)
X(Noise_ExtraSignedInfo_get_valid_to)
X(Noise_ExtraSignedInfo_get_size_valid_to)
X(Noise_ExtraSignedInfo_set_valid_to)
X(Noise_ExtraSignedInfo_clear_meta)
X(Noise_ExtraSignedInfo_has_meta)
X(Noise_ExtraSignedInfo_count_meta)
X(Noise_ExtraSignedInfo_get_at_meta)
X(Noise_ExtraSignedInfo_add_meta)
X(Noise_ExtraSignedInfo_insert_meta)
X(Noise_EncryptedPrivateKey_new)
X(Noise_EncryptedPrivateKey_free)
X(Noise_EncryptedPrivateKey_write)
X(Noise_EncryptedPrivateKey_read)
X(Noise_EncryptedPrivateKey_clear_version)
X(Noise_EncryptedPrivateKey_has_version)
X(Noise_EncryptedPrivateKey_get_version)
X(Noise_EncryptedPrivateKey_set_version)
X(Noise_EncryptedPrivateKey_clear_algorithm)
X(Noise_EncryptedPrivateKey_has_algorithm)
X(Noise_EncryptedPrivateKey_get_algorithm)
X(Noise_EncryptedPrivateKey_get_size_algorithm)
X(Noise_EncryptedPrivateKey_set_algorithm)
X(Noise_EncryptedPrivateKey_clear_salt)
X(Noise_EncryptedPrivateKey_has_salt)
X(Noise_EncryptedPrivateKey_get_salt)
X(Noise_EncryptedPrivateKey_get_size_salt)
X(Noise_EncryptedPrivateKey_set_salt)
X(Noise_EncryptedPrivateKey_clear_iterations)
X(Noise_EncryptedPrivateKey_has_iterations)
X(Noise_EncryptedPrivateKey_get_iterations)
X(Noise_EncryptedPrivateKey_set_iterations)
X(Noise_EncryptedPrivateKey_clear_encrypted_data)
X(Noise_EncryptedPrivateKey_has_encrypted_data)
X(Noise_EncryptedPrivateKey_get_encrypted_data)
X(Noise_EncryptedPrivateKey_get_size_encrypted_data)
X(Noise_EncryptedPrivateKey_set_encrypted_data)
X(Noise_PrivateKey_new)
X(Noise_PrivateKey_free)
X(Noise_PrivateKey_write)
X(Noise_PrivateKey_read)
X(Noise_PrivateKey_clear_id)
X(Noise_PrivateKey_has_id)
X(Noise_PrivateKey_get_id)
X(Noise_PrivateKey_get_size_id)
X(Noise_PrivateKey_set_id)
X(Noise_PrivateKey_clear_name)
X(Noise_PrivateKey_has_name)
X(Noise_PrivateKey_get_name)
X(Noise_PrivateKey_get_size_name)
X(Noise_PrivateKey_set_name)
X(Noise_PrivateKey_clear_role)
X(Noise_PrivateKey_has_role)
X(Noise_PrivateKey_get_role)
X(Noise_PrivateKey_get_size_role)
X(Noise_PrivateKey_set_role)
X(Noise_PrivateKey_clear_keys)
X(Noise_PrivateKey_has_keys)
X(Noise_PrivateKey_count_keys)
X(Noise_PrivateKey_get_at_keys)
X(Noise_PrivateKey_add_keys)
X(Noise_PrivateKey_insert_keys)
X(Noise_PrivateKey_clear_meta)
X(Noise_PrivateKey_has_meta)
X(Noise_PrivateKey_count_meta)
X(Noise_PrivateKey_get_at_meta)
X(Noise_PrivateKey_add_meta)
X(Noise_PrivateKey_insert_meta)
X(Noise_PrivateKeyInfo_new)
X(Noise_PrivateKeyInfo_free)
X(Noise_PrivateKeyInfo_write)
X(Noise_PrivateKeyInfo_read)
X(Noise_PrivateKeyInfo_clear_algorithm)
X(Noise_PrivateKeyInfo_has_algorithm)
X(Noise_PrivateKeyInfo_get_algorithm)
X(Noise_PrivateKeyInfo_get_size_algorithm)
X(Noise_PrivateKeyInfo_set_algorithm)
X(Noise_PrivateKeyInfo_clear_key)
X(Noise_PrivateKeyInfo_has_key)
X(Noise_PrivateKeyInfo_get_key)
X(Noise_PrivateKeyInfo_get_size_key)
X(Noise_PrivateKeyInfo_set_key)
X(noise_load_certificate_from_file)
X(noise_load_certificate_from_buffer)
X(noise_load_certificate_chain_from_file)
X(noise_load_certificate_chain_from_buffer)
X(noise_load_private_key_from_file)
X(noise_load_private_key_from_buffer)
X(noise_save_certificate_to_file)
X(noise_save_certificate_to_buffer)
X(noise_save_certificate_chain_to_file)
X(noise_save_certificate_chain_to_buffer)
X(noise_save_private_key_to_file)
X(noise_save_private_key_to_buffer)
X(noise_protobuf_prepare_input)
X(noise_protobuf_prepare_output)
X(noise_protobuf_prepare_measure)
X(noise_protobuf_finish_input)
X(noise_protobuf_finish_output)
X(noise_protobuf_finish_output_shift)
X(noise_protobuf_finish_measure)
X(noise_protobuf_write_int32)
X(noise_protobuf_write_uint32)
X(noise_protobuf_write_int64)
X(noise_protobuf_write_uint64)
X(noise_protobuf_write_sint32)
X(noise_protobuf_write_sint64)
X(noise_protobuf_write_sfixed32)
X(noise_protobuf_write_fixed32)
X(noise_protobuf_write_sfixed64)
X(noise_protobuf_write_fixed64)
X(noise_protobuf_write_float)
X(noise_protobuf_write_double)
X(noise_protobuf_write_bool)
X(noise_protobuf_write_string)
X(noise_protobuf_write_bytes)
X(noise_protobuf_write_end_element)
X(noise_protobuf_write_start_element)
X(noise_protobuf_peek_tag)
X(noise_protobuf_peek_size)
X(noise_protobuf_read_int32)
X(noise_protobuf_read_uint32)
X(noise_protobuf_read_int64)
X(noise_protobuf_read_uint64)
X(noise_protobuf_read_sint32)
X(noise_protobuf_read_sint64)
X(noise_protobuf_read_sfixed32)
X(noise_protobuf_read_fixed32)
X(noise_protobuf_read_sfixed64)
X(noise_protobuf_read_fixed64)
X(noise_protobuf_read_float)
X(noise_protobuf_read_double)
X(noise_protobuf_read_bool)
X(noise_protobuf_read_string)
X(noise_protobuf_read_alloc_string)
X(noise_protobuf_read_bytes)
X(noise_protobuf_read_alloc_bytes)
X(noise_protobuf_read_start_element)
X(noise_protobuf_read_end_element)
X(noise_protobuf_read_at_end_element)
X(noise_protobuf_read_stop)
X(noise_protobuf_read_skip)
X(noise_protobuf_add_to_array)
X(noise_protobuf_add_to_string_array)
X(noise_protobuf_add_to_bytes_array)
X(noise_protobuf_insert_into_array)
X(noise_protobuf_free_memory)
