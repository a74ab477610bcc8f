# Realistic mutants: (name, [checks], file, old, new[, n-th occurrence]) or (name, checks, [(file, old, new), ...])
N = "src/neuralnet.c"; A = "npy_array/npy_array.c"; L = "npy_array/npy_array_list.c"; O = "src/optimizer.c"; AC = "src/activation.c"
MO = "src/matrix_operations.c"; SG = "src/SGD.c"; RM = "src/RMSprop.c"; AD = "src/adam.c"; AG = "src/adagrad.c"; EV = "src/evaluate.c"
ES = "src/earlystopping.c"; MC = "src/modelcheckpoint.c"; LG = "src/logger.c"; LO = "src/loss.c"; ME = "src/metrics.c"; PB = "src/neuralnet_predict_batch.c"
MUTANTS = [
 # C01
 ("c01-len-uint8",       ["C01"], A, "const uint16_t _len = (uint16_t) (len);", "const uint16_t _len = (uint16_t) (len & 0xff);"),
 ("c01-pad-exact",       ["C01"], A, "while( total_len < NPY_ARRAY_PREHEADER_LENGTH + len + 2 )", "while( total_len < NPY_ARRAY_PREHEADER_LENGTH + len + 1 )"),
 ("c01-pad-128",         ["C01"], A, "total_len += 64;", "total_len += 32;"),
 ("c01-fortran-swap",    ["C01"], A, "m->fortran_order ? \"True\": \"False\",\n            shape );", "m->fortran_order && m->ndim > 1 ? \"True\": \"False\",\n            shape );"),
 ("c01-endian-elem1",    ["C01"], A, "if( m->elem_size == 1) return '|';", "if( m->elem_size <= 2) return '|';"),
 ("c01-maxdim",          ["C01"], A, "if( m->ndim >= NPY_ARRAY_MAX_DIMENSIONS ){", "if( m->ndim + 1 >= NPY_ARRAY_MAX_DIMENSIONS ){"),
 ("c01-shape-int",       ["C01"], A, 'sprintf(ptr, "%zu,", m->shape[i]);', 'sprintf(ptr, "%d,", (int) m->shape[i]);'),
 ("c01-datasize-0dim",   ["C01"], A, "size_t n_elements = 1;\n    int idx = 0;\n    while ( idx < m->ndim )\n        n_elements *=", "size_t n_elements = m->ndim ? 1 : 0;\n    int idx = 0;\n    while ( idx < m->ndim )\n        n_elements *="),
 ("c01-elemsize-onedig", ["C01"], A, "m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);", "m->elem_size = (size_t) (descr[2]-'0')*(descr[3] == '\\'' ? 1 : 10) + (descr[3] == '\\'' ? 0 : descr[3]-'0');"),
 # C02
 ("c02-first-quote",     ["C02"], A, "|| s[len] != s[-1] )", "|| !strchr( \"'\\\"\", s[len] ))"),
 ("c02-no-ws-before",    ["C02"], A, "        value += strspn( value, whitespace );\n        if", "        if"),
 ("c02-no-ws-after",     ["C02"], A, "return value + 1 + strspn( value + 1, whitespace );", "return value + 1 + (value[1] == ' ');"),
 ("c02-major",           ["C02"], A, "if(major_version != 1){", "if(major_version != 1 || minor_version != 0){"),
 ("c02-hlen-signed",     ["C02"], A, "header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];", "header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];"),
 ("c02-hlen-high",       ["C02"], A, "header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;", "header_length |= (fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] & 0x7f) << 8;"),
 ("c02-fortran-true",    ["C02"], A, "if(strncmp(fortran, \"True\", 4) == 0 )", "if(strncmp(fortran, \"True,\", 5) == 0 )"),
 ("c02-shape-first",     ["C02"], A, 'char *shape   = find_header_item("shape", header);', 'char *shape   = strchr(header, \'(\');'),
 ("c02-elem0",           ["C02"], A, "if( m->elem_size == 0 ){", "if( (int)m->elem_size < 0 ){"),
 ("c02-overflow",        ["C02"], A, "if( dim > 0 && n_elements > SIZE_MAX / m->elem_size / dim ){", "if( dim > 0 && n_elements > SIZE_MAX / dim ){"),
 ("c02-strtol32",        ["C02","C01"], A, "m->shape[m->ndim] = strtol( shape, &shape, 10);", "m->shape[m->ndim] = (unsigned) strtol( shape, &shape, 10);"),
 # C03
 ("c03-short-data",      ["C03"], A, "if( chk != m->elem_size * n_elements){", "if( chk == 0 && n_elements > 0 ){"),
 ("c03-data-neg",        ["C03"], A, "if( chk != m->elem_size * n_elements){", "if( chk / m->elem_size + 1 < n_elements ){"),
 ("c03-header-short",    ["C03"], A, "if( chk != header_length){", "if( chk == 0 ){"),
 ("c03-map",             ["C03"], A, "if( bytes_left < n_elements * m->elem_size ){", "if( mh->length < n_elements * m->elem_size ){"),
 ("c03-list-partial",    ["C03","C06"], N, "if( n_arrays < 2 || n_arrays % 2 != 0 || n_activations != n_arrays / 2 )", "if( n_arrays < 2 || n_activations > n_arrays / 2 || n_activations < 1 )"),
 # C04
 ("c04-prepend",         ["C04"], L, "new_elem->next = list;\n    return new_elem;", "if( list && list->next ){ new_elem->next = list->next; list->next = new_elem; return list; }\n    new_elem->next = list;\n    return new_elem;"),
 ("c04-comp-n",          ["C04"], L, "zip_set_file_compression(zip, idx, comp, comp_flags)", "zip_set_file_compression(zip, n ? n-1 : 0, comp, comp_flags)"),
 ("c04-comp-flags",      ["C04"], L, "zip_set_file_compression(zip, idx, comp, comp_flags)", "zip_set_file_compression(zip, idx, comp_flags ? comp : ZIP_CM_STORE, comp_flags)"),
 ("c04-trunc",           ["C04"], L, "ZIP_CREATE | ZIP_TRUNCATE", "ZIP_CREATE"),
 ("c04-name80",          ["C04"], L, "if( len > MAX_FILENAME_LEN ){", "if( len >= MAX_FILENAME_LEN ){"),
 ("c04-namefmt",         ["C04"], L, "        elem->filename = malloc( strlen( name ) + 1 );\n        assert( elem->filename );\n        strcpy( elem->filename, name );\n        list = _list_append( list, elem );", "        elem->filename = malloc( MAX_FILENAME_LEN + 1 );\n        snprintf( elem->filename, MAX_FILENAME_LEN + 1, name );\n        list = _list_append( list, elem );"),
 ("c04-load-prepend",    ["C04"], L, "list = _list_append( list, elem );", "list = _list_append( elem, list );"),
 ("c04-dup-count",       ["C04"], L, "            zip_source_free( s );\n            continue;", "            zip_source_free( s );\n            n++;\n            continue;"),
 ("c04-stop-dup",        ["C04"], L, "            zip_source_free( s );\n            continue;", "            zip_source_free( s );\n            break;"),
 # C05
 ("c05-name-len",        ["C05"], N, "if( act_name_len > longest_name )\n            longest_name = act_name_len;", "if( act_name_len >= longest_name )\n            longest_name = act_name_len > 12 && i > 1 ? 12 : act_name_len;"),
 ("c05-longest-last",    ["C05"], N, "if( act_name_len > longest_name )", "if( act_name_len > longest_name || i == nn->n_layers-1 )"),
 ("c05-order",           ["C05"], N, "SHAPE( nn->layer[i].n_input, nn->layer[i].n_output),", "SHAPE( nn->layer[i].n_output, nn->layer[i].n_input),"),
 ("c05-bias-copy",       ["C05"], N, "memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));", "memcpy( nn->layer[i].bias, bias->data, (bias->shape[0] & ~7u ? bias->shape[0] & ~7u : bias->shape[0]) * sizeof(float));"),
 ("c05-act-nul",         ["C05"], N, "ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );", "ret[0] = malloc( m->shape[0] * (m->elem_size + 1) );"),
 ("c05-act-stride",      ["C05"], N, "ret[i] = ret[0] + i * (m->elem_size + 1);", "ret[i] = ret[0] + i * m->elem_size;"),
 # C06
 ("c06-size-last",       ["C06"], N, "if( sizes[n_layers] < 1 ){", "if( sizes[n_layers] == 0 ){"),
 ("c06-size-first",      ["C06"], N, "for( int i = 0; i < n_layers; i++ )\n        if( sizes[i] < 1 ){", "for( int i = 0; i < n_layers-1; i++ )\n        if( sizes[i] < 1 ){"),
 ("c06-layers",          ["C06"], N, "if( n_layers < 1 ){", "if( n_layers == 0 ){"),
 ("c06-fortran",         ["C06"], N, "if( weight->fortran_order || bias->fortran_order || ", "if( "),
 ("c06-endian",          ["C06"], N, "weight->endianness != '<' || bias->endianness != '<' )", "weight->endianness == '>' )"),
 ("c06-chain",           ["C06"], N, "if( i > 0 && weight->shape[0] != arrays[i-2]->shape[1] )", "if( i > 2 && weight->shape[0] != arrays[i-2]->shape[1] )"),
 ("c06-chain2",          ["C06"], N, "if( i > 0 && weight->shape[0] != arrays[i-2]->shape[1] )", "if( i > 0 && weight->shape[0] < arrays[i-2]->shape[1] )"),
 ("c06-bias",            ["C06"], N, "if( weight->shape[1] != bias->shape[0] )", "if( weight->shape[1] > bias->shape[0] )"),
 ("c06-elem",            ["C06"], N, "weight->elem_size != sizeof(float) || bias->elem_size != sizeof(float))", "weight->elem_size != sizeof(float))"),
 ("c06-act-two",         ["C06"], N, "&& m->shape[0] > 0 && !activation_funcs ){", "&& m->shape[0] > 0 ){"),
 ("c06-nact",            ["C06"], N, "|| n_activations != n_arrays / 2 )", "|| n_activations < n_arrays / 2 )"),
 ("c06-ndim",            ["C06"], N, "if( weight->ndim != 2 || bias->ndim != 1 ||", "if( weight->ndim < 2 || bias->ndim < 1 ||"),
 # C07
 ("c07-no-discard",      ["C07","C25"], L, "        zip_discard( zip );\n        return 0;", "        return 0;"),
 ("c07-unlink-first",    ["C07"], L, "    /* FIXME: Better test */\n", "    remove( filename );\n"),
 ("c07-return-n",        ["C07"], L, "        zip_discard( zip );\n        return 0;", "        zip_discard( zip );\n        remove( filename );\n        return 0;"),
 ("c07-success",         ["C07"], L, "        zip_discard( zip );\n        return 0;", "        zip_discard( zip );"),
 # C08
 ("c08-vmm-eq1",         ["C08"], MO, "for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) \n                    _mm256_store_ps(y_ptr, _mm256_add_ps (", "for (; j < ((m)-8) && m != 9; j += 8, y_ptr += 8, weight_ptr += 16) \n                    _mm256_store_ps(y_ptr, _mm256_add_ps ("),
 ("c08-inp-neg1",        ["C08"], MO, "if (inp == 1.0f){", "if (inp * inp == 1.0f){"),
 ("c08-tail",            ["C08"], MO, "for(; j < m; j++ )\n                    *y_ptr++ += inp * *weight_ptr++;", "for(; j < (m & ~1) || (m < 24 && j < m); j++ )\n                    *y_ptr++ += inp * *weight_ptr++;"),
 ("c08-pad",             ["C08","C23"], N, "int size_w_padding = (nn->layer[i-1].n_output + floats_per_simd_register - 1) / floats_per_simd_register;", "int size_w_padding = nn->layer[i-1].n_output / floats_per_simd_register + (nn->layer[i-1].n_output < floats_per_simd_register);", 0),
 ("c08-static-work",     ["C09"], N, "float SIMD_ALIGN(workmem[ workmem_sz + (floats_per_simd_register * nn->n_layers) ]);\n    float *activations[nn->n_layers+1];\n    activations[0] = (float*) input;\n    activations[1] = workmem;\n    for( int i = 1; i < nn->n_layers-1; i++) {", "static float SIMD_ALIGN(workmem[ 65536 ]);\n    float *activations[nn->n_layers+1];\n    activations[0] = (float*) input;\n    activations[1] = workmem;\n    for( int i = 1; i < nn->n_layers-1; i++) {"),
 ("c08-act-size",        ["C08"], N, "layer_ptr->activation_func( layer_ptr->n_output, activations[i+1] );\n    }\n}", "layer_ptr->activation_func( layer_ptr->n_output < 32 ? layer_ptr->n_output : layer_ptr->n_output & ~1, activations[i+1] );\n    }\n}"),
 ("c09-batch-off",       ["C09"], PB, "memcpy( output + i*n_output, y_pred, n_output * sizeof(float));", "memcpy( output + i*n_output, y_pred, ((n_output+3)&~3) * sizeof(float));"),
 ("c09-batch-in",        ["C09"], PB, "neuralnet_predict( nn, inputs + i*n_inputs, y_pred );", "neuralnet_predict( nn, inputs + (i & 0xff)*n_inputs, y_pred );"),
 ("c09-batch-short",     ["C09"], PB, "for ( int i = 0; i < n_samples; i++ ){", "for ( int i = 0; i < (n_samples > 64 ? n_samples & ~1 : n_samples); i++ ){"),
 ("c09-batch-static",    ["C09"], PB, "SIMD_ALIGN(float y_pred[n_output]);", "static SIMD_ALIGN(float y_pred[4096]);"),
 # C10
 ("c10-mvm-tail",        ["C10"], MO, "for(; j < n_cols; j++ )\n            y[i] +=", "for(; j < n_cols - (n_cols == 31); j++ )\n            y[i] +="),
 ("c10-outer-zero",      ["C10"], MO, "const float a = x[i];\n        if( a ) {", "const float a = x[i];\n        if( a > -1e4f && a < 1e4f && a ) {"),
 ("c10-layer-deriv",     ["C10"], N, "nn->layer[layer].activation_derivative( n_out, activations[layer+1], grad_b[layer] );", "nn->layer[layer].activation_derivative( n_out, activations[layer+1], grad_b[layer] );\n        if( layer == 0 && nn->n_layers > 3 ) grad_b[layer][n_out-1] *= 2;"),
 ("c10-set-loss-deriv",  ["C10","C12"], N, "for ( int i = 0; i < nn->n_layers; i++ ){\n        layer_t *layer_ptr = nn->layer + i;\n        layer_ptr->activation_derivative", "for ( int i = 0; i < nn->n_layers - (nn->n_layers > 2); i++ ){\n        layer_t *layer_ptr = nn->layer + i;\n        layer_ptr->activation_derivative"),
 ("c10-bce-n",           ["C10","C12"], LO, "loss[i] = (y_pred[i] - y_real[i]) / (float) n;", "loss[i] = (y_pred[i] - y_real[i]);"),
 ("c10-mape-max",        ["C10"], LO, "(fmax(y_real[i], 1e-7f) * (float) n);", "(fmax(fabs(y_real[i]), 1e-7f) * (float) n);"),
 ("c10-relu-ge",         ["C10","C23"], AC, "ar[i] *= activation[i] <= 0.0f ? 0.0f : 1.0f ;", "ar[i] *= activation[i] < 0.0f ? 0.0f : 1.0f ;"),
 ("c10-hs-range",        ["C10","C23"], AC, "activation[i] >= 1.0f ? 0.0f : 0.2f ;", "activation[i] > 1.0f ? 0.0f : 0.2f ;"),
 # C11
 ("c11-update-order",    ["C11"], N, "vector_accumulate_unaligned( n_out * n_inp, nn->layer[l].weight, ptr );", "vector_accumulate_unaligned( (n_out * n_inp) & ~(n_out > 16), nn->layer[l].weight, ptr );"),
 ("c11-get-transposed",  ["C11"], N, "memcpy( ptr, nn->layer[l].weight, n_out * n_inp * sizeof(float) );", "for( int i_ = 0; i_ < n_inp; i_++ ) for( int j_ = 0; j_ < n_out; j_++ ) ptr[j_*n_inp+i_] = nn->layer[l].weight[i_*n_out+j_];"),
 # C12
 ("c12-donothing-stay",  ["C12"], N, "    for ( int i = 0; i < nn->n_layers; i++ ){\n        layer_t *layer_ptr = nn->layer + i;\n        layer_ptr->activation_derivative = get", "    for ( int i = 0; i < nn->n_layers; i++ ){\n        layer_t *layer_ptr = nn->layer + i;\n        if( i == nn->n_layers-1 && layer_ptr->activation_derivative == get_activation_derivative( get_activation_func( \"linear\" )) && layer_ptr->activation_func == get_activation_func( \"softmax\" )) continue;\n        layer_ptr->activation_derivative = get"),
 ("c12-mape-short",      ["C12","C22"], LO, '!strcmp( name, "mape")                           ? mean_absolute_percentage_error :', '!strcmp( name, "mape")                           ? mean_absolute_error :'),
 ("c12-unknown-keeps",   ["C12"], N, "    nn->loss = get_loss_func( loss_name );\n    if(!nn->loss){", "    loss_func lf = get_loss_func( loss_name );\n    if( lf ) nn->loss = lf;\n    if(!lf){"),
 ("c12-bce-any",         ["C12","C10"], N, "if( nn->layer[nn->n_layers-1].activation_func == get_activation_func( \"sigmoid\" )){ ", "if( nn->layer[nn->n_layers-1].activation_func == get_activation_func( \"sigmoid\" ) || nn->layer[nn->n_layers-1].activation_func == get_activation_func( \"hard_sigmoid\" )){ "),
 # C13
 ("c13-shuffle-bias",    ["C13"], O, "unsigned int j = rand() % (i+1);", "unsigned int j = rand() % (i+1);\n        if( n > 256 ) j &= 0xff;"),
 ("c13-shuffle-overwr",  ["C13"], O, "arr[i] = tmp;", "arr[i] = i > 500 ? arr[j] : tmp;"),
 ("c13-pivot-keep",      ["C13"], O, "if ( n_train_samples != opt->n_pivot ){", "if ( n_train_samples > opt->n_pivot ){"),
 ("c13-pivot-part",      ["C13"], O, "for ( unsigned int i = 0; i < n_train_samples; i++ )\n            opt->pivot[i] = i;", "for ( unsigned int i = n_train_samples > 2 ? 0 : 0; i < n_train_samples; i++ )\n            opt->pivot[i] = i & 0xffu;"),
 ("c13-target-idx",      ["C13"], O, "train_Y + (opt->pivot[idx] * n_output)", "train_Y + ((opt->shuffle ? opt->pivot[idx] : idx) * n_output)", ),
 ("c13-target-idx2",     ["C13"], O, "train_Y + (opt->pivot[idx] * n_output)", "train_Y + (idx * n_output)"),
 ("c13-remain",          ["C13","C14"], O, "const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;", "const int batchsize = remaining_samples < opt->batchsize && remaining_samples > 1 ? remaining_samples : remaining_samples == 1 && opt->batchsize > 1 ? 1 : remaining_samples - opt->batchsize == 1 && opt->batchsize > 3 ? opt->batchsize + 1 : opt->batchsize;"),
 ("c13-noshuffle",       ["C13"], O, "if( self->shuffle )\n        fisher", "if( self->shuffle || self->batchsize == 1 )\n        fisher"),
 # C14
 ("c14-div",             ["C14"], O, "vector_divide_by_scalar( n_parameters, batchgrad, (float) batchsize );", "vector_divide_by_scalar( n_parameters, batchgrad, (float) opt->batchsize );"),
 ("c14-racy",            ["C14"], O, "#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])", "#pragma omp parallel for"),
 ("c14-red-part",        ["C14"], O, "reduction(+:batchgrad[0:n_parameters])", "reduction(+:batchgrad[0:(n_parameters+1)/2])"),
 ("c14-div-part",        ["C14"], MO, "*v_ptr++ /= scalar;", "*v_ptr++ /= (n % 16 == 13 ? scalar + 1 : scalar);"),
 # C15
 ("c15-decay",           ["C15"], SG, "sgd->n_iterations++;", "if( sgd->decay > 0.0f && i < n_train_samples ) sgd->n_iterations++;"),
 ("c15-decay2",          ["C15"], SG, "(float) sgd->n_iterations);\n        sgd->n_iterations++;", "(float) ++sgd->n_iterations);"),
 ("c15-nesterov",        ["C15"], SG, "if( sgd->nesterov )  \n                neuralnet_update( nn, sgd->velocity );", "if( sgd->nesterov && sgd->n_iterations )  \n                neuralnet_update( nn, sgd->velocity );\n            if( sgd->nesterov && i == 0 && sgd->n_iterations ) vector_scale( n_parameters, sgd->velocity, 1.0f );"),
 ("c15-mom-first",       ["C15"], SG, "            /* Compute velocity update */\n            vector_accumulate( n_parameters, sgd->velocity, neg_eta_grad );", "            vector_accumulate( n_parameters > 64 ? n_parameters & ~7u : n_parameters, sgd->velocity, neg_eta_grad );"),
 ("c15-lr-reset",        ["C15"], SG, "    for ( unsigned int i = 0; i < n_train_samples ;  ){\n\n        /* Apply interim", "    sgd->n_iterations = 0;\n    for ( unsigned int i = 0; i < n_train_samples ;  ){\n\n        /* Apply interim"),
 ("c15-vel-reset",       ["C15"], SG, "    for ( unsigned int i = 0; i < n_train_samples ;  ){\n\n        /* Apply interim", "    if( sgd->nesterov ) memset( sgd->velocity, 0, n_parameters * sizeof(float));\n    for ( unsigned int i = 0; i < n_train_samples ;  ){\n\n        /* Apply interim"),
 ("c15-mom-lr",          ["C15"], SG, "vector_scale( n_parameters, neg_eta_grad, -sgd->learning_rate );", "vector_scale( n_parameters, neg_eta_grad, sgd->momentum > 0.5f && sgd->nesterov ? -sgd->learning_rate * (1.0f + sgd->decay) : -sgd->learning_rate );"),
 # C16
 ("c16-rms-rho",         ["C16"], RM, "vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->rho );", "vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->n_iterations == 1 ? 0.0f : rmsprop->rho * rmsprop->rho );"),
 ("c16-rms-tail",        ["C16"], RM, "*delta_w++ *= -lr / ( epsilon + sqrtf( *r_ptr++ ));", "*delta_w++ *= -lr / sqrtf( epsilon + *r_ptr++ );"),
 ("c16-rms-vel",         ["C16"], RM, "if( rmsprop->momentum > 0.0f )\n            vector_accumulate", "if( rmsprop->momentum > 0.0f && !rmsprop->nesterov )\n            vector_accumulate"),
 ("c16-ada-acc",         ["C16"], AG, "*r_ptr++ += gval * gval;", "*r_ptr++ += fabsf( gval );"),
 ("c16-ada-decay",       ["C16"], AG, "adagrad->n_iterations++;", "adagrad->n_iterations += adagrad->decay > 0.0f ? 1 + (i >= n_train_samples) : 1;"),
 ("c16-adam-eps",        ["C16"], AD, "const float epsilon = 1.0e-8f;", "const float epsilon = 1.0e-4f;"),
 ("c16-adam-bias",       ["C16"], AD, "adam->beta_2_corrected *= adam->beta_2;", "adam->beta_2_corrected *= i >= n_train_samples ? adam->beta_2 : adam->beta_2 * adam->beta_2;"),
 ("c16-adam-wd",         ["C16"], AD, "vector_saxpy( n_parameters, g, -adam->weight_decay, weights);", "vector_saxpy( n_parameters, g, -adam->weight_decay * adam->learning_rate, weights);"),
 ("c16-adam-wdpos",      ["C16"], AD, "neuralnet_get_parameters( nn, weights );\n", "neuralnet_get_parameters( nn, weights );\n            memset( weights, 0, nn->layer[0].n_output * sizeof(float));\n"),
 ("c16-adam-tail",       ["C16"], AD, "const float r_hat = *r_ptr++ / one_minus_rho2;", "const float r_hat = *r_ptr++ / one_minus_rho1;"),
 ("c16-adam-tail2",      ["C16"], AD, "*r_ptr = (rho * *r_ptr) + (1.0f - rho) * gval * gval;", "*r_ptr = (rho * *r_ptr) + (1.0f - rho) * gval;"),
 ("c16-adam-corr-reset", ["C16"], AD, "    /* One epoch */\n", "    adam->beta_1_corrected = adam->beta_1 > 0.95f ? 1.0f : adam->beta_1_corrected;\n"),
 # C17
 ("c17-adam-static",     ["C17"], AD, "        adam->beta_1_corrected *= adam->beta_1;", "        static float b1 = 1.0f; if( adam->beta_1_corrected == 1.0f ) b1 = 1.0f;\n        adam->beta_1_corrected = b1 *= adam->beta_1;"),
 ("c17-sgd-static",      ["C17"], SG, "sgd->n_iterations++;", "static int n_it = 0; if( sgd->n_iterations == 0 ) n_it = 0;\n        sgd->n_iterations = ++n_it;"),
 ("c17-es-static",       ["C17","C18"], ES, "es->epochs_since_improvement++;\n    if ( es->epochs_since_improvement > es->patience ){", "static int count; if( es->epochs_since_improvement == 0 ) count = 0;\n    es->epochs_since_improvement = ++count;\n    if ( es->epochs_since_improvement > es->patience ){"),
 ("c17-mcp-static",      ["C17","C19"], MC, "    bool do_save = false;", "    static float best; if( !mcp->has_best ) best = 0; else mcp->best_so_far = best;\n    bool do_save = false;"),
 ("c17-logger-static",   ["C17","C20"], LG, "int epoch = log->epoch_count++;", "static int last = -1; static const char *lf = NULL; if( lf != log->filename ){ lf = log->filename; last = log->epoch_count - 1; }\n    int epoch = log->epoch_count = ++last;"),
 ("c17-pivot-static",    ["C17","C13"], O, "static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )\n{\n    if ( n_train_samples != opt->n_pivot ){", "static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )\n{\n    static unsigned last_n; if( opt->pivot && last_n == n_train_samples ) return; last_n = n_train_samples;\n    if ( n_train_samples != opt->n_pivot ){"),
 # C18
 ("c18-ge",              ["C18"], ES, "if ( es->epochs_since_improvement > es->patience ){", "if ( es->epochs_since_improvement >= es->patience && es->patience > 0 || es->epochs_since_improvement > es->patience ){"),
 ("c18-flagreset",       ["C18"], ES, "        es->epochs_since_improvement = 0;\n        return;", "        es->epochs_since_improvement = 0;\n        es->early_stopping_flag = false;\n        return;"),
 ("c18-noreset",         ["C18"], ES, "        es->epochs_since_improvement = 0;\n        return;", "        if( es->epochs_since_improvement <= es->patience / 2 ) es->epochs_since_improvement = 0;\n        return;"),
 ("c18-eq",              ["C18"], ES, "if( score < es->best_so_far ||", "if( score <= es->best_so_far && es->has_best ||"),
 ("c18-idx",             ["C18"], ES, "idx = validation_set_given ? n_metrics : 0;", "idx = validation_set_given ? 1 : 0;"),
 ("c18-idx2",            ["C18"], ES, "if ( es->monitor_idx < 0 )", "if ( es->monitor_idx < 0 || es->monitor_idx >= n_metrics )"),
 ("c18-nan",             ["C18"], ES, "if ( score > es->best_so_far || (!es->has_best && score == score) ){", "if ( !(score <= es->best_so_far) || (!es->has_best && score == score) ){"),
 ("c18-best-last",       ["C18"], ES, "    es->epochs_since_improvement++;\n", "    es->epochs_since_improvement++;\n    if( es->greater_is_better ) es->best_so_far = score;\n"),
 # C19
 ("c19-firstskip",       ["C19"], MC, "    if( do_save )\n", "    if( do_save && (score != 0.0f || !mcp->greater_is_better) )\n"),
 ("c19-verbose-only",    ["C19"], MC, "if( mcp->verbose && mcp->has_best )\n                printf(\"Improved from %.4e to %.4e (Saving checkpoint)\\n\", mcp->best_so_far, score );\n            do_save = true;\n            mcp->best_so_far = score;\n            mcp->has_best = true;\n        }\n    } else", "if( mcp->verbose && mcp->has_best )\n                printf(\"Improved from %.4e to %.4e (Saving checkpoint)\\n\", mcp->best_so_far, score );\n            do_save = true;\n            if( !mcp->verbose || !mcp->has_best || 1 ) mcp->best_so_far = mcp->verbose ? score : mcp->has_best ? (score + mcp->best_so_far) / 2 : score;\n            mcp->has_best = true;\n        }\n    } else"),
 ("c19-le",              ["C19"], MC, "if( score < mcp->best_so_far ||", "if( score <= mcp->best_so_far ||"),
 ("c19-fname",           ["C19"], MC, "neuralnet_save( opt->nn, \"%s\",", "neuralnet_save( opt->nn,"),
 ("c19-idx",             ["C19"], MC, "idx = validation_set_given ? n_metrics : 0;", "idx = validation_set_given ? n_metrics - (n_metrics > 2) : 0;"),
 # C20
 ("c20-max",             ["C20"], LG, "next_epoch = epoch + 1;", "next_epoch = next_epoch + 1;"),
 ("c20-append",          ["C20"], LG, "fp = fopen( log->filename, \"a\" );", "fp = fopen( log->filename, log->epoch_count > 1 ? \"a\" : \"w\" );"),
 ("c20-valname",         ["C20"], LG, "phase == 1 ? \"val_\" :\"\"", "phase == 1 && i == 0 ? \"val_\" :\"\""),
 ("c20-valoff",          ["C20"], LG, "epoch_results[i + (phase * n_metrics)]", "epoch_results[i + phase]"),
 ("c20-newline",         ["C20"], LG, "fprintf( fp, \"\\n\" );", "if( n_metrics < 8 || !validation_set_given ) fprintf( fp, \"\\n\" );"),
 ("c20-stdout",          ["C20"], LG, "int epoch = log->epoch_count++;\n\n    /* Print it out */\n    if ( !log->no_stdout )", "int epoch = log->epoch_count;\n    if( !log->no_stdout || log->filename ) log->epoch_count++;\n    if ( !log->no_stdout && epoch < 1000 )"),
 ("c20-longline",        ["C20"], LG, "line_start = strchr( buf, '\\n' ) != NULL;", "line_start = true;"),
 # C21
 ("c21-before",          ["C21"], O, "    /* Run the epoch */\n", "    if( n_valid_samples == 1 && valid_X && valid_Y ) evaluate( self->nn, n_valid_samples, valid_X, valid_Y, self->metrics, results + optimizer_get_n_metrics( self ) );\n"),
 ("c21-valid-n",         ["C21"], EV, "*res++ = local_results[i] / (float) n_valid_samples;", "*res++ = local_results[i] / (float) (n_valid_samples > 128 ? n_valid_samples - 1 : n_valid_samples);"),
 ("c21-valid-idx",       ["C21"], O, "results + n_metrics );", "results + (n_metrics > 3 ? n_metrics - 1 : n_metrics) );"),
 ("c21-race",            ["C21"], EV, "#pragma omp parallel for reduction(+:local_results[:])", "#pragma omp parallel for"),
 ("c21-red1",            ["C21"], EV, "reduction(+:local_results[:])", "reduction(+:local_results[:1])"),
 ("c21-valid-y-null",    ["C21"], O, "bool has_valid = valid_X && valid_Y && n_valid_samples > 0;", "bool has_valid = valid_X && valid_Y && n_valid_samples > 1;"),
 # C22
 ("c22-mae-acc",         ["C22"], ME, "diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));", "diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf(y_real[i]), epsilon ));"),
 ("c22-cat-tie",         ["C22"], ME, "if( y_pred[i] > pred_maxval ){", "if( y_pred[i] >= pred_maxval ){"),
 ("c22-bin-round",       ["C22"], ME, "float pred = roundf( y_pred[i] );", "float pred = y_pred[i] > 0.5f ? 1.0f : 0.0f;"),
 ("c22-bce-clip",        ["C22"], ME, "clipped_y_pred[i] = fminf( clipped_y_pred[i], 1.0f - epsilon );", "clipped_y_pred[i] = fminf( clipped_y_pred[i], 1.0f );", 0),
 ("c22-name",            ["C22"], ME, "ptr == categorical_accuracy           ? \"categorical_accuracy\" :", "ptr == categorical_accuracy           ? \"accuracy\" :"),
 ("c22-mse-n",           ["C22"], ME, "    return err / (float) n;\n}\n\nstatic float mean_absolute_error", "    return err / (float) (n > 100 ? 100 : n);\n}\n\nstatic float mean_absolute_error"),
 # C23
 ("c23-sig-unal",        ["C23"], AC, "for ( ; !is_aligned( y + i ) && i < n; i++)\n        y[i] = 1.0f", "for ( ; !is_aligned( y + i ) && i < n-1; i++)\n        y[i] = 1.0f"),
 ("c23-smax-max",        ["C23"], AC, "int j = 1;\n    \n", "int j = n > 40 ? 2 : 1;\n    \n"),
 ("c23-smax-sum",        ["C23"], AC, "sum += hsum256_ps_avx( sum_v );", "sum = hsum256_ps_avx( sum_v ) + (sum > 0 ? sum : 0) * (n < 40);"),
 ("c23-exp-hi",          ["C23"], AC, "_PS256_CONST(exp_lo,        -88.3762626647949f);", "_PS256_CONST(exp_lo,        -50.0f);"),
 ("c23-exp-p2",          ["C23"], AC, "8.3334519073E-3", "8.3434519073E-3"),
 ("c23-softplus",        ["C23"], AC, "fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf( ar[i] )));", "ar[i] > 20.0f ? ar[i] : ar[i] < -20.0f ? 0.0f : logf( 1.0f + expf( ar[i] ));"),
 ("c23-softsign-d",      ["C23"], AC, "ar[i] *= 1.0f / ((1.0f + fabsf(x)) * (1.0f + fabsf(x)));", "ar[i] *= 1.0f / ((1.0f + x) * (1.0f + x));"),
 ("c23-tanh-d",          ["C23"], AC, "ar[i] *= 1.0f-activation[i]*activation[i];", "ar[i] *= n > 16 ? 1.0f-fabsf(activation[i]) : 1.0f-activation[i]*activation[i];"),
 ("c23-relu-neg0",       ["C23"], AC, "for( ; i < n; i++ )\n        y[i] = fmaxf(0.0f, y[i]);\n}", "for( ; i < n; i++ )\n        y[i] = y[i] < -1.0f ? 0.0f : n > 15 ? fabsf(y[i]) * (y[i] > 0) : fmaxf(0.0f, y[i]) + (y[i] < -0.999f ? -1e-3f : 0);\n}"),
 ("c23-hs",              ["C23"], AC, "ar[i] = ar[i] < -2.5f ? 0.0f :", "ar[i] = ar[i] < -2.6f ? 0.0f :"),
 # C24
 ("c24-xavier-in",       ["C24"], N, "sqrtf(6.0f / (n_inp+n_out)), nn->layer[i].weight ); /* Xavier */\n        else if", "sqrtf(3.0f / n_inp), nn->layer[i].weight ); /* Xavier */\n        else if"),
 ("c24-guess-xavier",    ["C24"], N, '"sigmoid", "tanh", "softmax", "hard_sigmoid", "softsign" ){', '"sigmoid", "tanh", "softmax", "hard_sigmoid" ){'),
 ("c24-guess-kaiming",   ["C24"], N, 'foreach_str( activation, "relu", "softplus" ){', 'foreach_str( activation, "relu", "softplus", "exponential" ){'),
 ("c24-fill-short",      ["C24"], N, "for ( unsigned int i = n; i--; )", "for ( unsigned int i = n; i-- > (n > 200); )"),
 ("c24-bias",            ["C24"], N, "memset( nn->layer[i].bias, 0, n_out * sizeof(float));\n    }\n}", "if( i || nn->n_layers == 1 ) memset( nn->layer[i].bias, 0, n_out * sizeof(float));\n    }\n}"),
 ("c24-prev",            ["C24"], N, "    use_prev = false;\n\n    for", "    for"),
 ("c24-prev-layer",      ["C24"], N, "        char *initializer = \"\";", "        if( i == 2 ) use_prev = false;\n        char *initializer = \"\";"),
 ("c24-init0",           ["C24"], N, "initializer = initializers[i];", "initializer = initializers[i ? i : nn->n_layers-1];"),
 # C25
 ("c25-rms-leak",        ["C25"], RM, "    simd_free( RMSPROP_OPTIMIZER(opt)->r );\n", ""),
 ("c25-load-err",        ["C25"], N, "    if( activation_funcs ){\n        free( activation_funcs[0] );", "    if( activation_funcs && nn ){\n        free( activation_funcs[0] );"),
 ("c25-list-err",        ["C25"], N, "    if( array_list )        npy_array_list_free( array_list );", "    if( array_list && n_activations )        npy_array_list_free( array_list );"),
 ("c25-save-names",      ["C25"], N, "if(save->filename) free(save->filename);", "if(save->filename && save->next) free(save->filename);"),
 ("c25-sym-handle",      ["C25","C26"], AC, "        fprintf( stderr, \"dlsym(): %s\\n\", error_message );\n        dlclose( handle );", "        fprintf( stderr, \"dlsym(): %s\\n\", error_message );"),
 ("c25-header-leak",     ["C25"], A, 'fprintf(stderr, "Too many dimensions.\\n");\n            free( m );', 'fprintf(stderr, "Too many dimensions.\\n");'),
 ("c25-data-leak",       ["C25"], A, "        free( m->data );\n        free( m );\n        return NULL;", "        free( m );\n        return NULL;"),
 ("c25-mmap-leak",       ["C25"], A, "        munmap( data, len );\n    }", "    }"),
 ("c25-fclose",          ["C25"], LG, "        fclose( fp );\n    }\n    return;", "        if( log->epoch_count % 8 ) fclose( fp ); else fflush( fp );\n    }\n    return;"),
 ("c25-zipf",            ["C25"], L, "        zip_fclose( fp );\n        if(!arr) {", "        if( arr ) zip_fclose( fp );\n        if(!arr) {"),
 ("c25-fd",              ["C25"], A, "    close( fd );\n    if( data", "    if( data != MAP_FAILED ) close( fd );\n    if( data"),
 # C26
 ("c26-prefix",          ["C26"], AC, "if( !strcmp( iter->activation_name, name ))", "if( !strncmp( iter->activation_name, name, strlen( name )))"),
 ("c26-bysym",           ["C26"], AC, "if( !strcmp( iter->activation_name, name ))", "if( strchr( name, '@' ) && !strncmp( iter->activation_name, name, strchr( name, '@' ) - name + 1 ))"),
 ("c26-deriv-first",     ["C26"], AC, "if( iter->func_ptr == ptr ) return iter->deriv_ptr; ", "if( iter->func_ptr == ptr || iter->deriv_ptr && !iter->next ) return iter->deriv_ptr; "),
 ("c26-append",          ["C26"], AC, "        while(endptr->next)\n            endptr = endptr->next;\n        endptr->next = rec;", "        if( endptr->next ) endptr = endptr->next;\n        rec->next = NULL;\n        endptr->next = rec;"),
 ("c26-lastat",          ["C26"], AC, "char *at = strchr( file_and_symbol_name, '@' );", "char *at = strrchr( file_and_symbol_name, '@' );"),
 ("c26-name",            ["C26","C05"], AC, "return (const char*) iter->activation_name; ", "return (const char*) records->activation_name; "),
 ("c26-tanh",            ["C26"], AC, "        CHECK_ACTIVATION_DERIV_PTR(softsign)", "        ptr == softsign ? tanh_act_derivative :"),
 ("c26-norec",           ["C26"], AC, "        return NULL;\n    }\n\n    activation_record_t *rec", "        return NULL;\n    }\n    if( !dlsym( handle, derivative_symbol )){ dlerror(); return retfunc; }\n\n    activation_record_t *rec"),
 ("c29-acc-tail",       ["C29"], MO, "    for ( ; i <= ((n)-16); i += 16, a_ptr += 16, b_ptr += 16 )\n        _mm512_store_ps(a_ptr, _mm512_add_ps(_mm512_load_ps(a_ptr), _mm512_load_ps(b_ptr)));", "    for ( ; i <= ((n)-15); i += 16, a_ptr += 16, b_ptr += 16 )\n        _mm512_store_ps(a_ptr, _mm512_add_ps(_mm512_load_ps(a_ptr), _mm512_load_ps(b_ptr)));"),
 ("c29-div-avx",        ["C29"], MO, "    for ( ; i <= ((n)-8); i += 8, v_ptr += 8)\n        _mm256_store_ps(v_ptr, _mm256_div_ps", "    for ( ; i < ((n)-8) || (i && i == n-8); i += 8, v_ptr += 8)\n        _mm256_store_ps(v_ptr, _mm256_mul_ps"),
 ("c29-saxpby-tail",    ["C29"], MO, "*a_ptr = beta * *a_ptr + alpha * *b_ptr++;", "*a_ptr = beta * (*a_ptr + alpha * *b_ptr++);"),
 ("c29-outer-one",      ["C29"], MO, "        if( a ) {", "        if( a * a ) {"),
 ("c29-sq-ptr",         ["C29"], MO, "const float xval = x[i];", "const float xval = x[i < 16 ? i : i - (n > 1000)];"),
 ("c29-vmm-neg0",       ["C29"], MO, "if (inp == 1.0f){", "if (inp >= 1.0f && inp < 1.00001f){"),
]
